package verifharness

import (
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// leaf is a constraint that admits an arbitrary set of strings and that code
// can be generated for.
func leaf(name string) jsval.Constraint {
	return jsval.String().Regexp(v.Regexp(name))
}

func same(val *jsval.JSVal, x interface{}) {
	gen := regenerate(val)
	a, b := accepts(val, x), accepts(gen, x)
	if a {
		v.Reach("accepted")
	} else {
		v.Reach("rejected")
	}
	v.Assert(a == b, sameVerdict)
}

func Spec_C18_combinations() {
	k := v.Choose(3)
	n := v.Choose(4)
	var c jsval.Constraint
	switch k {
	case 0:
		all := jsval.All()
		for i := 0; i < n; i++ {
			all.Add(leaf([]string{"p0", "p1", "p2"}[i]))
		}
		c = all
	case 1:
		any := jsval.Any()
		for i := 0; i < n; i++ {
			any.Add(leaf([]string{"p0", "p1", "p2"}[i]))
		}
		c = any
	default:
		one := jsval.OneOf()
		for i := 0; i < n; i++ {
			one.Add(leaf([]string{"p0", "p1", "p2"}[i]))
		}
		c = one
	}
	if v.Choose(2) == 1 {
		c = jsval.Not(c)
	}
	x, _ := anyJSON("x")
	same(named(c), x)
}

func Spec_C18_array() {
	c := jsval.Array()
	switch v.Choose(4) {
	case 0:
		c.Items(leaf("items"))
	case 1:
		c.PositionalItems([]jsval.Constraint{leaf("first")})
	case 2:
		c.PositionalItems([]jsval.Constraint{leaf("first"), leaf("second")})
	}
	switch v.Choose(3) {
	case 0:
		c.AdditionalItems(leaf("rest"))
	case 1:
		c.AdditionalItems(nil)
	}
	x := []interface{}{}
	for i := 0; i < 3; i++ {
		if v.Choose(2) == 0 {
			break
		}
		x = append(x, v.Str([]string{"x0", "x1", "x2"}[i]))
	}
	same(named(c), x)
}

func Spec_C18_arraySize() {
	c := jsval.Array()
	if v.Choose(2) == 1 {
		n := v.Int("minItems")
		v.Assume(n >= 0)
		c.MinItems(n)
	}
	if v.Choose(2) == 1 {
		n := v.Int("maxItems")
		v.Assume(n >= 0)
		c.MaxItems(n)
	}
	if v.Choose(2) == 1 {
		c.UniqueItems(v.Choose(2) == 1)
	}
	x := []interface{}{}
	for i := 0; i < 2; i++ {
		if v.Choose(2) == 0 {
			break
		}
		x = append(x, v.Float([]string{"x0", "x1"}[i]))
	}
	same(named(c), x)
}

// anyObject has any of three properties with arbitrary strings as values.
func anyObject() map[string]interface{} {
	x := map[string]interface{}{}
	for _, k := range []string{"a", "b", "c"} {
		if v.Choose(2) == 1 {
			x[k] = v.Str("x." + k)
		}
	}
	return x
}

func Spec_C18_properties() {
	c := jsval.Object()
	if v.Choose(2) == 1 {
		c.AddProp("a", leaf("p.a"))
	}
	if v.Choose(2) == 1 {
		c.AddProp("b", leaf("p.b"))
	}
	if v.Choose(2) == 1 {
		c.Required("a")
	}
	if v.Choose(2) == 1 {
		c.Required("b")
	}
	switch v.Choose(3) {
	case 0:
		c.AdditionalProperties(leaf("rest"))
	case 1:
		c.AdditionalProperties(jsval.EmptyConstraint)
	}
	same(named(c), anyObject())
}

func Spec_C18_patternProperties() {
	c := jsval.Object()
	p, q := v.Regexp("pattern0"), v.Regexp("pattern1")
	v.Assume(p.String() < q.String())
	c.PatternProperties(p, leaf("pp0"))
	if v.Choose(2) == 1 {
		c.PatternProperties(q, leaf("pp1"))
	}
	if v.Choose(2) == 1 {
		c.AdditionalProperties(leaf("rest"))
	}
	x := map[string]interface{}{}
	if v.Choose(2) == 1 {
		x["a"] = v.Str("x.a")
	}
	if v.Choose(2) == 1 {
		x["b"] = v.Str("x.b")
	}
	same(named(c), x)
}

func Spec_C18_objectSize() {
	c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
	if v.Choose(2) == 1 {
		n := v.Int("minProperties")
		v.Assume(n >= 0)
		c.MinProperties(n)
	}
	if v.Choose(2) == 1 {
		n := v.Int("maxProperties")
		v.Assume(n >= 0)
		c.MaxProperties(n)
	}
	same(named(c), anyObject())
}

func Spec_C18_dependencies() {
	c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
	switch v.Choose(3) {
	case 0:
		c.AddProp("a", jsval.EmptyConstraint).AddProp("b", jsval.EmptyConstraint).AddProp("c", jsval.EmptyConstraint)
	case 1:
		c.AddProp("d", jsval.EmptyConstraint)
	}
	switch v.Choose(4) {
	case 0:
		c.PropDependency("a", "b")
	case 1:
		c.PropDependency("a", "b", "c")
	case 2:
		c.PropDependency("a", "b").PropDependency("b", "c")
	}
	switch v.Choose(3) {
	case 0:
		c.SchemaDependency("c", jsval.Object().AdditionalProperties(leaf("dep")))
	case 1:
		c.SchemaDependency("c", jsval.Object().AdditionalProperties(leaf("dep")))
		c.SchemaDependency("b", jsval.Object().MaxProperties(1))
	}
	same(named(c), anyObject())
}

// References: the generated validator resolves them to the constraints the
// original resolves them to.
func Spec_C18_references() {
	val := named(nil)
	val.SetReference("#/definitions/r", leaf("r"))
	if v.Choose(2) == 1 {
		val.SetReference("#/definitions/s", jsval.Not(jsval.Reference(val.ConstraintMap).RefersTo("#/definitions/r")))
	} else {
		val.SetReference("#/definitions/s", jsval.NullConstraint)
	}
	c := jsval.Any()
	switch v.Choose(4) {
	case 0:
		c.Add(jsval.Reference(val.ConstraintMap).RefersTo("#/definitions/r"))
	case 1:
		c.Add(jsval.Reference(val.ConstraintMap).RefersTo("#/definitions/s"))
	case 2:
		c.Add(jsval.Reference(val.ConstraintMap).RefersTo("#/definitions/s"))
		c.Add(leaf("t"))
	default:
		c.Add(jsval.All().Add(jsval.Reference(val.ConstraintMap).RefersTo("#/definitions/r")).Add(leaf("t")))
	}
	val.SetRoot(c)
	x, _ := anyJSON("x")
	same(val, x)
}

// The root can itself be a referenced constraint.
func Spec_C18_rootReference() {
	val := named(nil)
	r, s := leaf("r"), leaf("s")
	val.SetReference("#", r)
	val.SetReference("#/definitions/s", s)
	switch v.Choose(3) {
	case 0:
		val.SetRoot(r)
	case 1:
		val.SetRoot(s)
	default:
		val.SetRoot(jsval.Reference(val.ConstraintMap).RefersTo("#/definitions/s"))
	}
	x, _ := anyJSON("x")
	same(val, x)
}

// Recursive structures: a reference to a constraint that contains it.
func Spec_C18_recursive() {
	val := named(nil)
	node := jsval.Object().
		AddProp("value", leaf("value")).
		AddProp("next", jsval.Reference(val.ConstraintMap).RefersTo("#")).
		Required("value")
	val.SetReference("#", node)
	val.SetRoot(node)
	x := map[string]interface{}{"value": v.Str("v0")}
	if v.Choose(2) == 1 {
		y := map[string]interface{}{}
		if v.Choose(2) == 1 {
			y["value"] = v.Str("v1")
		}
		x["next"] = y
	}
	same(val, x)
}

// Several validators share one file and one set of references.
func Spec_C18_several() {
	cm := &jsval.ConstraintMap{}
	cm.SetReference("#/definitions/r", leaf("r"))
	a := jsval.New().SetName("A").SetConstraintMap(cm).SetRoot(jsval.Not(jsval.Reference(cm).RefersTo("#/definitions/r")))
	b := jsval.New().SetName("B").SetConstraintMap(cm).SetRoot(jsval.Reference(cm).RefersTo("#/definitions/r"))
	d := jsval.New().SetName("C").SetRoot(leaf("t"))
	vals := []*jsval.JSVal{a, b, d}
	if v.Choose(2) == 1 {
		vals = []*jsval.JSVal{d, b, a}
	}
	text := generated(vals...)
	ok := v.Compiles(text)
	v.Assert(ok, "generated code compiles")
	v.Assume(ok)
	v.RunGenerated()
	x, _ := anyJSON("x")
	for _, o := range []*jsval.JSVal{a, b, d} {
		v.Assert(accepts(v.GeneratedVar(o.Name).(*jsval.JSVal), x) == accepts(o, x), sameVerdict)
	}
}

// Different references of different validators in one file.
func Spec_C18_severalReferences() {
	a, b := named(nil).SetName("A"), named(nil).SetName("B")
	a.SetReference("#/definitions/r", leaf("r"))
	b.SetReference("#/definitions/s", leaf("s"))
	a.SetRoot(jsval.Reference(a.ConstraintMap).RefersTo("#/definitions/r"))
	b.SetRoot(jsval.Reference(b.ConstraintMap).RefersTo("#/definitions/s"))
	text := generated(b, a)
	ok := v.Compiles(text)
	v.Assert(ok, "generated code compiles")
	v.Assume(ok)
	v.RunGenerated()
	x, _ := anyJSON("x")
	v.Assert(accepts(v.GeneratedVar("A").(*jsval.JSVal), x) == accepts(a, x), sameVerdict)
	v.Assert(accepts(v.GeneratedVar("B").(*jsval.JSVal), x) == accepts(b, x), sameVerdict)
}

// Constraints nest.
func Spec_C18_nested() {
	inner := jsval.Array().Items(jsval.OneOf().Add(leaf("i0")).Add(jsval.Not(leaf("i1"))))
	c := jsval.Object().AddProp("list", inner).AddProp("obj", jsval.Object().AddProp("s", leaf("s")))
	x := map[string]interface{}{}
	if v.Choose(2) == 1 {
		x["list"] = []interface{}{v.Str("x0")}
	}
	if v.Choose(2) == 1 {
		x["obj"] = map[string]interface{}{"s": v.Str("x1")}
	}
	same(named(c), x)
}

// Defaults of properties survive.
func Spec_C18_propertyDefault() {
	c := jsval.Object().AddProp("a", jsval.String().Default(v.Str("default")))
	gen := regenerate(named(c))
	x := map[string]interface{}{}
	y := map[string]interface{}{}
	e, f := c.Validate(x), gen.Validate(y)
	v.Assert((e == nil) == (f == nil), sameVerdict)
	v.Assert(v.DeepEq(x, y), "the generated validator fills in the defaults that the original fills in")
}

// Validators whose references overlap.
func Spec_C18_overlap() {
	a, b := named(nil).SetName("A"), named(nil).SetName("B")
	r := leaf("r")
	a.SetReference("#/definitions/r", r)
	b.SetReference("#/definitions/r", r)
	if v.Choose(2) == 1 {
		b.SetReference("#/definitions/q", leaf("s"))
	} else {
		b.SetReference("#/definitions/q", jsval.Not(leaf("s")))
	}
	b.SetReference("#/definitions/s", jsval.NullConstraint)
	a.SetRoot(jsval.Reference(a.ConstraintMap).RefersTo("#/definitions/r"))
	switch v.Choose(3) {
	case 0:
		b.SetRoot(jsval.Reference(b.ConstraintMap).RefersTo("#/definitions/q"))
	case 1:
		b.SetRoot(jsval.Reference(b.ConstraintMap).RefersTo("#/definitions/r"))
	default:
		b.SetRoot(jsval.Any().Add(jsval.Reference(b.ConstraintMap).RefersTo("#/definitions/q")).Add(jsval.Reference(b.ConstraintMap).RefersTo("#/definitions/s")))
	}
	text := generated(a, b)
	ok := v.Compiles(text)
	v.Assert(ok, "generated code compiles")
	v.Assume(ok)
	v.RunGenerated()
	x, _ := anyJSON("x")
	v.Assert(accepts(v.GeneratedVar("A").(*jsval.JSVal), x) == accepts(a, x), sameVerdict)
	v.Assert(accepts(v.GeneratedVar("B").(*jsval.JSVal), x) == accepts(b, x), sameVerdict)
}
