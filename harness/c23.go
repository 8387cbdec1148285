package verifharness

import (
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

const released = "no lock is held once an operation is over"

// nosy is a constraint that uses the object constraint it belongs to while
// it validates, and may fail or panic.
type nosy struct {
	o    *jsval.ObjectConstraint
	mode int
}

func (n nosy) act() error {
	switch n.mode {
	case 0:
		n.o.AddProp("late", jsval.EmptyConstraint)
		n.o.PatternPropertiesString("^late", jsval.EmptyConstraint)
	case 1:
		n.o.Required("a")
		n.o.IsPropRequired("a")
	case 2:
		n.o.PropDependency("late", "a")
		n.o.SchemaDependency("late", jsval.EmptyConstraint)
		n.o.GetPropDependencies("a")
		n.o.GetSchemaDependency("a")
	case 3:
		n.o.Validate(map[string]interface{}{})
	case 4:
		return errInvalid
	case 5:
		panic("nosy")
	}
	return nil
}

func (n nosy) Validate(x interface{}) error { return n.act() }
func (n nosy) HasDefault() bool             { return n.mode == 6 || n.mode != 3 && (n.act() != nil || n.mode < 3) }
func (n nosy) DefaultValue() interface{}    { n.act(); return "x" }

func try(f func()) {
	defer func() { recover() }()
	f()
}

// Whatever a member constraint does, including using the object it belongs
// to, validation ends and leaves no lock behind.
func Spec_C23_object() {
	o := jsval.Object()
	n := nosy{o, v.Choose(7)}
	switch v.Choose(4) {
	case 0:
		o.AddProp("a", n)
	case 1:
		o.PatternPropertiesString("^a", n)
	case 2:
		o.AdditionalProperties(n)
	default:
		o.AddProp("a", jsval.EmptyConstraint).SchemaDependency("a", n)
	}
	if v.Choose(2) == 1 {
		o.Required("b")
	}
	x := map[string]interface{}{}
	if v.Choose(2) == 1 {
		x["a"] = v.Str("x")
	}
	try(func() { o.Validate(x) })
	v.Assert(v.Held() == 0, released)
	o.AddProp("c", jsval.EmptyConstraint).Required("c").PropDependency("c", "a")
	v.Assert(v.Held() == 0, released)
}

// A resolver that fails, panics or consults the table again.
type nosyResolver struct {
	cm   *jsval.ConstraintMap
	mode int
}

func (n nosyResolver) GetReference(s string) (jsval.Constraint, error) {
	switch n.mode {
	case 0:
		return nil, errInvalid
	case 1:
		panic("nosy")
	case 2:
		n.cm.SetReference(s, jsval.EmptyConstraint)
		n.cm.Len()
	}
	return n.cm.GetReference(s)
}

func Spec_C23_reference() {
	cm := &jsval.ConstraintMap{}
	r := jsval.Reference(nosyResolver{cm, v.Choose(4)}).RefersTo("a")
	if v.Choose(2) == 1 {
		cm.SetReference("a", nosy{jsval.Object(), v.Choose(7)})
	}
	try(func() { r.Validate("x") })
	v.Assert(v.Held() == 0, released)
	try(func() { r.HasDefault() })
	v.Assert(v.Held() == 0, released)
	try(func() { r.DefaultValue() })
	v.Assert(v.Held() == 0, released)
	try(func() { r.Validate("y") })
	v.Assert(v.Held() == 0, released)
}

// Constraints that refer to themselves validate nested values.
func Spec_C23_recursive() {
	cm := &jsval.ConstraintMap{}
	self := jsval.Reference(cm).RefersTo("#")
	o := jsval.Object().AddProp("next", self).AddProp("value", leaf("p")).AdditionalProperties(self)
	if v.Choose(2) == 1 {
		o.Required("value")
	}
	cm.SetReference("#", o)
	x := map[string]interface{}{"value": v.Str("x")}
	y := map[string]interface{}{"next": x}
	if v.Choose(2) == 1 {
		y["value"] = v.Str("y")
	}
	z := map[string]interface{}{"next": y, "other": x, "value": v.Str("z")}
	self.Validate(z)
	v.Assert(v.Held() == 0, released)
	self.Validate(z)
	v.Assert(v.Held() == 0, released)
}

func Spec_C23_structs() {
	c := jsval.Object().AddProp("a", jsval.String()).AddProp("m", jsval.String().Default("x"))
	if v.Choose(2) == 1 {
		c.Required("m")
	}
	try(func() { c.Validate(&raceA{A: v.Str("x")}) })
	v.Assert(v.Held() == 0, released)
	try(func() { c.Validate(raceA{A: v.Str("x")}) })
	v.Assert(v.Held() == 0, released)
	try(func() { c.Validate(&raceB{A: 1}) })
	v.Assert(v.Held() == 0, released)
}

// Operations that can run at the same time take locks in one order.
func Spec_C23_order() {
	cm := &jsval.ConstraintMap{}
	a := jsval.Reference(cm).RefersTo("a")
	b := jsval.Reference(cm).RefersTo("b")
	o := jsval.Object().AddProp("a", a).AddProp("b", b)
	cm.SetReference("a", o)
	cm.SetReference("b", jsval.All().Add(a))
	x := map[string]interface{}{"a": map[string]interface{}{}}
	concurrently(
		func() { a.Validate(x) },
		func() { b.Validate(x) },
		func() { a.HasDefault() },
		func() { b.DefaultValue() },
		func() { cm.SetReference("c", a) },
		func() { cm.GetReference("a") },
		func() { cm.Len() },
		func() { o.AddProp("c", b).Required("c").PropDependency("a", "b").SchemaDependency("b", a) },
		func() { o.IsPropRequired("a"); o.GetPropDependencies("a"); o.GetSchemaDependency("b") },
	)
	v.Assert(v.Held() == 0, released)
}

// Every operation on a table of references ends, whatever the name.
func Spec_C23_names() {
	cm := &jsval.ConstraintMap{}
	a, b := v.Str("a"), v.Str("b")
	if v.Choose(2) == 1 {
		cm.SetReference(a, jsval.EmptyConstraint)
		v.Assert(v.Held() == 0, released)
	}
	cm.GetReference(b)
	v.Assert(v.Held() == 0, released)
	cm.Len()
	v.Assert(v.Held() == 0, released)
	cm.SetReference(b, nil)
	v.Assert(v.Held() == 0, released)
	cm.GetReference(b)
	v.Assert(v.Held() == 0, released)
}

// Every operation on an object constraint ends, whatever the name.
func Spec_C23_properties() {
	o := jsval.Object()
	a, b := v.Str("a"), v.Str("b")
	if v.Choose(2) == 1 {
		o.AddProp(a, jsval.EmptyConstraint).Required(a).PropDependency(a, b).SchemaDependency(a, jsval.EmptyConstraint).PatternPropertiesString("^x", jsval.EmptyConstraint)
		v.Assert(v.Held() == 0, released)
	}
	switch v.Choose(8) {
	case 0:
		o.IsPropRequired(b)
	case 1:
		o.GetPropDependencies(b)
	case 2:
		o.GetSchemaDependency(b)
	case 3:
		o.AddProp(b, nil)
	case 4:
		o.Required(b, a)
	case 5:
		o.PropDependency(b, a)
	case 6:
		o.SchemaDependency(b, nil)
	case 7:
		o.Required()
	}
	v.Assert(v.Held() == 0, released)
}
