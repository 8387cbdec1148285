package verifharness

import (
	"github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// concurrently analyses ops as if any two of them (also an operation and
// itself) ran at the same time: first from the given state, then after each
// of them has run once.
func concurrently(ops ...func()) {
	role := "first"
	if v.Choose(2) == 1 {
		for _, op := range ops {
			op()
		}
		role = "again"
	}
	v.Share()
	v.Role(role)
	ops[v.Choose(len(ops))]()
	v.Unshare()
}

func Spec_C22_references() {
	cm := &jsval.ConstraintMap{}
	c := leaf("p")
	if v.Choose(2) == 1 {
		cm.SetReference("a", c)
	}
	concurrently(
		func() { cm.SetReference("a", c) },
		func() { cm.SetReference("b", c) },
		func() { cm.GetReference("a") },
		func() { cm.GetReference("b") },
		func() { cm.Len() },
	)
}

func Spec_C22_resolution() {
	cm := &jsval.ConstraintMap{}
	ref := jsval.Reference(cm).RefersTo("a")
	if v.Choose(2) == 1 {
		cm.SetReference("a", jsval.String().Default("x"))
	}
	concurrently(
		func() { cm.SetReference("a", leaf("p")) },
		func() { ref.Validate("x") },
		func() { ref.HasDefault() },
		func() { ref.DefaultValue() },
		func() { ref.Resolved() },
	)
}

// shared is a validator with every kind of constraint.
func sharedValidator(k int) jsval.Constraint {
	switch k {
	case 0:
		return jsval.Object().
			AddProp("a", jsval.String().MinLength(1).MaxLength(3).Enum("x", "y").Default("x")).
			Required("b").
			PatternPropertiesString("^p", jsval.Boolean()).
			AdditionalProperties(jsval.NullConstraint)
	case 1:
		return jsval.Object().AddProp("a", jsval.EmptyConstraint).AddProp("b", jsval.EmptyConstraint).
			PropDependency("a", "b").SchemaDependency("b", jsval.Object().MaxProperties(2).AdditionalProperties(jsval.EmptyConstraint)).
			MinProperties(1)
	case 2:
		return jsval.Array().Items(jsval.Number().Minimum(1).MultipleOf(2).Enum(2.0, 4.0)).UniqueItems(true).MinItems(1).MaxItems(3)
	case 3:
		return jsval.Array().PositionalItems([]jsval.Constraint{jsval.Integer(), jsval.Boolean()}).AdditionalItems(jsval.NullConstraint)
	case 4:
		return jsval.All().Add(jsval.Any().Add(leaf("p")).Add(leaf("q"))).Add(jsval.Not(leaf("r"))).Add(jsval.OneOf().Add(leaf("s")).Add(leaf("t")))
	case 5:
		return jsval.String().Format([]string{"email", "date-time", "uri", "ipv4", "ipv6", "hostname"}[v.Choose(6)])
	default:
		return jsval.Enum("x", nil, 1.0, []interface{}{"a"})
	}
}

func input(k int) interface{} {
	switch k {
	case 0:
		return map[string]interface{}{"b": nil, "p1": true, "c": nil}
	case 1:
		return map[string]interface{}{"a": "x", "b": "y"}
	case 2:
		return []interface{}{2.0, 4.0}
	case 3:
		return []interface{}{1.0, true, nil}
	case 4:
		return v.Str("x")
	case 5:
		return "a"
	default:
		return []interface{}{"a"}
	}
}

// badInput is rejected by the validator of that number.
func badInput(k int) interface{} {
	switch k {
	case 0:
		switch v.Choose(6) {
		case 0:
			return map[string]interface{}{}
		case 1:
			return map[string]interface{}{"a": "", "b": nil}
		case 2:
			return map[string]interface{}{"a": "long", "b": nil}
		case 3:
			return map[string]interface{}{"a": "z", "b": nil}
		case 4:
			return map[string]interface{}{"b": nil, "p1": 3.0}
		}
		return map[string]interface{}{"b": nil, "c": 3.0}
	case 1:
		switch v.Choose(4) {
		case 0:
			return map[string]interface{}{}
		case 1:
			return map[string]interface{}{"a": "x"}
		case 2:
			return map[string]interface{}{"a": "x", "b": "x", "c": "x"}
		}
		return map[string]interface{}{"c": "x"}
	case 2:
		switch v.Choose(6) {
		case 0:
			return []interface{}{}
		case 1:
			return []interface{}{2.0, 2.0}
		case 2:
			return []interface{}{2.0, 4.0, 2.0, 4.0}
		case 3:
			return []interface{}{0.0}
		case 4:
			return []interface{}{3.0}
		}
		return []interface{}{6.0}
	case 3:
		switch v.Choose(4) {
		case 0:
			return []interface{}{1.5}
		case 1:
			return []interface{}{1.0, "x"}
		case 2:
			return []interface{}{1.0, true, "x"}
		}
		return nil
	case 5:
		return []string{"", "-a-", "::x", "1.2.3"}[v.Choose(4)]
	case 6:
		return []interface{}{"b"}
	}
	return map[string]interface{}{}
}

func Spec_C22_reject() {
	k := v.Choose(7)
	val := named(sharedValidator(k))
	concurrently(
		func() { val.Validate(input(k)) },
		func() { val.Validate(badInput(k)) },
	)
}

// References to references.
func Spec_C22_chain() {
	cm := &jsval.ConstraintMap{}
	inner := jsval.Reference(cm).RefersTo("b")
	outer := jsval.Reference(cm).RefersTo("a")
	cm.SetReference("a", inner)
	if v.Choose(2) == 1 {
		cm.SetReference("b", jsval.String().Default("x"))
	}
	concurrently(
		func() { outer.Validate("x") },
		func() { inner.Validate("x") },
		func() { outer.HasDefault() },
		func() { inner.DefaultValue() },
		func() { outer.Resolved() },
		func() { inner.Resolved() },
		func() { cm.SetReference("b", leaf("p")) },
	)
}

func Spec_C22_validate() {
	k := v.Choose(7)
	val := named(sharedValidator(k))
	concurrently(func() { val.Validate(input(k)) })
}

type raceA struct {
	A string            `json:"a"`
	M jsval.MaybeString `json:"m"`
}

type raceB struct {
	A int `json:"a"`
}

// Struct types are registered the first time they are seen.
func Spec_C22_structs() {
	c := jsval.Object().AddProp("a", jsval.EmptyConstraint).AddProp("m", jsval.String()).AdditionalProperties(jsval.EmptyConstraint)
	concurrently(
		func() { c.Validate(raceA{A: "x"}) },
		func() { c.Validate(&raceB{A: 1}) },
		func() { c.Validate(&raceA{A: "x"}) },
	)
}

// Properties can be declared while others validate.
func Spec_C22_declare() {
	c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
	c.AddProp("a", jsval.String()).Required("a").PropDependency("a", "b").SchemaDependency("b", jsval.EmptyConstraint)
	rx := v.Regexp("p")
	concurrently(
		func() { c.AddProp("b", jsval.EmptyConstraint) },
		func() { c.Required("b") },
		func() { c.PropDependency("a", "c") },
		func() { c.SchemaDependency("c", jsval.EmptyConstraint) },
		func() { c.PatternProperties(rx, jsval.EmptyConstraint) },
		func() { c.IsPropRequired("b"); c.GetPropDependencies("a"); c.GetSchemaDependency("c") },
		func() { c.Validate(map[string]interface{}{"a": "x", "b": 1.0}) },
	)
}

// Builders share nothing that changes.
func Spec_C22_build() {
	b := builder.New()
	s := typed(schema.ObjectType)
	s.Properties = map[string]*schema.Schema{"a": typed(schema.StringType), "b": ref("#/properties/a")}
	concurrently(
		func() { b.Build(s) },
		func() { builder.New().Build(s) },
	)
}

// Code can be generated while others validate.
func Spec_C22_generate() {
	val := named(jsval.Object().AddProp("a", leaf("p")).Required("a"))
	val.SetReference("r", leaf("r"))
	g := jsval.NewGenerator()
	concurrently(
		func() { g.Process(&sink{}, val) },
		func() { val.Validate(map[string]interface{}{"a": v.Str("x")}) },
	)
}
