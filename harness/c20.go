package verifharness

import (
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

const sameText = "the generated text depends on the validators only"

func twice(vals ...*jsval.JSVal) {
	a := generated(vals...)
	b := generated(vals...)
	v.Assert(a == b, sameText)
}

func Spec_C20_object() {
	c := jsval.Object()
	c.AddProp("a", leaf("a")).AddProp("b", leaf("b"))
	c.Required("a", "b")
	twice(named(c))
}

func Spec_C20_properties() {
	c := jsval.Object()
	c.AddProp("a", leaf("a")).AddProp("b", leaf("b")).AddProp("c", leaf("c"))
	twice(named(c))
}

func Spec_C20_required() {
	twice(named(jsval.Object().Required("a", "b", "c")))
}

func Spec_C20_patterns() {
	p, q := v.Regexp("p"), v.Regexp("q")
	v.Assume(p.String() < q.String())
	c := jsval.Object().PatternProperties(p, leaf("a")).PatternProperties(q, leaf("b"))
	twice(named(c))
}

func Spec_C20_dependencies() {
	c := jsval.Object().PropDependency("a", "b", "c").PropDependency("b", "a").PropDependency("c", "a")
	twice(named(c))
}

func Spec_C20_schemaDependencies() {
	c := jsval.Object().SchemaDependency("a", leaf("a")).SchemaDependency("b", leaf("b")).SchemaDependency("c", leaf("c"))
	twice(named(c))
}

func Spec_C20_enum() {
	e := map[string]interface{}{"a": v.Float("a"), "b": v.Str("b"), "c": nil}
	twice(named(jsval.Enum(e, "x")))
}

func Spec_C20_references() {
	val := named(nil)
	val.SetReference("a", leaf("a"))
	val.SetReference("b", leaf("b"))
	val.SetReference("c", leaf("c"))
	val.SetRoot(jsval.Reference(val.ConstraintMap).RefersTo("a"))
	twice(val)
}

// One constraint that goes by two names.
func Spec_C20_rootWithTwoNames() {
	val := named(nil)
	r := leaf("r")
	val.SetReference("a", r)
	val.SetReference("b", r)
	val.SetRoot(r)
	twice(val)
}

// The order in which properties were added, or validators are listed, does
// not show.
func Spec_C20_order() {
	c := jsval.Object().AddProp("a", leaf("a")).AddProp("b", leaf("b")).Required("b", "a")
	d := jsval.Object().AddProp("b", leaf("b")).AddProp("a", leaf("a")).Required("a", "b")
	v.Assert(generated(named(c)) == generated(named(d)), sameText)
}

func Spec_C20_validators() {
	a, b := named(leaf("a")).SetName("A"), named(leaf("b")).SetName("B")
	a.SetReference("r", leaf("r"))
	b.SetReference("s", leaf("s"))
	v.Assert(generated(a, b) == generated(b, a), sameText)
}

// Distinct constraints give distinct texts in distinct places: generating
// from two validators does not mix them up.
func Spec_C20_repeated() {
	c := jsval.Object().AddProp("a", leaf("a")).AddProp("b", leaf("b"))
	val := named(c)
	a := generated(val)
	c.AddProp("c", leaf("c"))
	b := generated(val)
	v.Assert(a != b, "generated text reflects later changes of the validator")
}
