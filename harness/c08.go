package verifharness

import (
	"regexp"

	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// objSpec says which constraints apply to which properties.
type objSpec struct {
	nd   int // declared properties
	dn   [2]string
	np   int // patterns
	rx   [2]*regexp.Regexp
	mode int // additional properties: 0 unset, 1 forbidden, 2 anything, 3 constrained
}

var declIDs = [2]string{"d0", "d1"}
var patIDs = [2]string{"p0", "p1"}

func anyObjSpec(decls, pats int) objSpec {
	var s objSpec
	s.nd = v.Choose(decls + 1)
	s.dn = [2]string{v.Str("decl0"), v.Str("decl1")}
	if s.nd > 1 {
		v.Assume(s.dn[0] != s.dn[1])
	}
	s.np = v.Choose(pats + 1)
	s.rx = [2]*regexp.Regexp{v.Regexp("pat0"), v.Regexp("pat1")}
	s.mode = v.Choose(4)
	return s
}

func (s objSpec) constraint() *jsval.ObjectConstraint {
	c := jsval.Object()
	for i := 0; i < s.nd; i++ {
		c.AddProp(s.dn[i], child{declIDs[i]})
	}
	for i := 0; i < s.np; i++ {
		c.PatternProperties(s.rx[i], child{patIDs[i]})
	}
	switch s.mode {
	case 1:
		c.AdditionalProperties(nil)
	case 2:
		c.AdditionalProperties(jsval.EmptyConstraint)
	case 3:
		c.AdditionalProperties(child{"add"})
	}
	return c
}

// allows is the meaning of the constraint for one property.
func (s objSpec) allows(k string, x interface{}) bool {
	for i := 0; i < s.nd; i++ {
		if k == s.dn[i] {
			return okFor(declIDs[i], x)
		}
	}
	ok, matched := true, false
	for i := 0; i < s.np; i++ {
		if s.rx[i].MatchString(k) {
			matched = true
			if !okFor(patIDs[i], x) {
				ok = false
			}
		}
	}
	if matched {
		return ok
	}
	switch s.mode {
	case 2:
		return true
	case 3:
		return okFor("add", x)
	}
	return false
}

func Spec_C08_type() {
	x, kind := anyScalar("x")
	v.Assert(accepts(jsval.Object(), x) == (kind == kObject), "an object constraint accepts objects and no other JSON value")
}

func objectCoverage(s objSpec, n int) {
	c := s.constraint()
	m := map[string]interface{}{}
	ks := [2]string{v.Str("k0"), v.Str("k1")}
	xs := [2]interface{}{v.Str("x0"), v.Str("x1")}
	if n > 1 {
		v.Assume(ks[0] != ks[1])
	}
	want := true
	for i := 0; i < n; i++ {
		m[ks[i]] = xs[i]
	}
	for i := 0; i < n; i++ {
		if !s.allows(ks[i], xs[i]) {
			want = false
		}
	}
	got := accepts(c, m)
	v.Assert(!got || want, "an object with a property its declaration, a matching pattern or the rule for additional properties rejects is rejected")
	v.Assert(got || !want, "an object whose properties all satisfy what applies to them is accepted")
}

func Spec_C08_one()   { objectCoverage(anyObjSpec(2, 2), v.Choose(2)) }
func Spec_C08_two()   { objectCoverage(anyObjSpec(1, 1), 2) }
func Spec_C08_twoB()  { objectCoverage(anyObjSpec(0, 2), 2) }
func Spec_C08_twoC()  { objectCoverage(anyObjSpec(2, 0), 2) }
func Spec_C08_two_thorough() { objectCoverage(anyObjSpec(2, 2), 2) }

// numOK judges strings by an arbitrary predicate and lets numbers pass.
type numOK struct{ child }

func (c numOK) Validate(x interface{}) error {
	if s, ok := x.(string); ok {
		return c.child.Validate(s)
	}
	return nil
}

// Any number of other properties: one property that is not allowed makes the
// object invalid.
func Spec_C08_many() {
	s := anyObjSpec(1, 1)
	c := jsval.Object()
	for i := 0; i < s.nd; i++ {
		c.AddProp(s.dn[i], numOK{child{declIDs[i]}})
	}
	for i := 0; i < s.np; i++ {
		c.PatternProperties(s.rx[i], numOK{child{patIDs[i]}})
	}
	switch s.mode {
	case 1:
		c.AdditionalProperties(nil)
	case 2:
		c.AdditionalProperties(jsval.EmptyConstraint)
	case 3:
		c.AdditionalProperties(numOK{child{"add"}})
	}
	k, x := v.Str("k"), v.Str("x")
	m := map[string]interface{}{k: x}
	v.PutMany(m, v.Many[string]("others"), interface{}(v.Many[float64]("otherval")))
	got := accepts(c, m)
	v.Assert(!got || s.allows(k, x), "a property that is not allowed makes the object invalid whatever other properties it has")
	if s.mode >= 2 {
		v.Assert(got || !s.allows(k, x), "any number of allowed properties are accepted together")
	}
}

// Declaring or constraining again replaces the earlier rule.
func Spec_C08_redeclare() {
	k, x := v.Str("k"), v.Str("x")
	c := jsval.Object().AddProp(k, child{"old"}).AddProp(k, child{"new"})
	v.Assert(accepts(c, map[string]interface{}{k: x}) == okFor("new", x), "declaring a property again replaces its constraint")
}

// Patterns given as text.
func Spec_C08_patternstring() {
	p := v.Str("pattern")
	v.Assume(v.ValidPattern(p))
	k, x := v.Str("k"), v.Str("x")
	c := jsval.Object().PatternPropertiesString(p, child{"p"})
	want := regexp.MustCompile(p).MatchString(k) && okFor("p", x)
	v.Assert(accepts(c, map[string]interface{}{k: x}) == want, "a pattern given as text applies to the property names it matches")
}

// Nested objects are checked at every level.
func Spec_C08_nested() {
	k, x := v.Str("k"), v.Str("x")
	inner := jsval.Object().AddProp("in", child{"in"})
	c := jsval.Object().AddProp("out", inner)
	m := map[string]interface{}{"out": map[string]interface{}{k: x}}
	v.Assert(accepts(c, m) == (k == "in" && okFor("in", x)), "nested objects are checked at every level")
}

// A pointer to an object and a typed map are judged like the object.
func Spec_C08_shapes() {
	k, x := v.Str("k"), v.Str("x")
	c := jsval.Object().AddProp("a", child{"a"})
	want := k == "a" && okFor("a", x)
	if v.Choose(2) == 0 {
		m := map[string]interface{}{k: x}
		v.Assert(accepts(c, &m) == want, "a pointer to an object is judged like the object")
	} else {
		v.Assert(accepts(c, map[string]string{k: x}) == want, "a typed map is judged like the object")
	}
}

// Properties of every kind of value, null and empty ones included.
func Spec_C08_values() {
	var x interface{}
	switch v.Choose(7) {
	case 1:
		x = ""
	case 2:
		x = v.Float("n")
	case 3:
		x = v.Bool("b")
	case 4:
		x = []interface{}{}
	case 5:
		x = map[string]interface{}{}
	case 6:
		x = map[string]interface{}{"a": nil}
	}
	c := jsval.Object()
	switch v.Choose(3) {
	case 0:
		c.AddProp("a", child{"c"})
		switch v.Choose(3) {
		case 1:
			c.AdditionalProperties(jsval.EmptyConstraint)
		case 2:
			c.PatternPropertiesString("a", child{"never"})
		}
	case 1:
		c.PatternPropertiesString("a", child{"c"})
		if v.Choose(2) == 1 {
			c.AdditionalProperties(child{"never"})
		}
	case 2:
		c.AdditionalProperties(child{"c"})
		switch v.Choose(3) {
		case 1:
			c.AddProp("b", child{"never"})
		case 2:
			c.PatternPropertiesString("b", child{"never"})
		}
	}
	if v.Choose(2) == 1 {
		c.Required("a")
	}
	v.Assert(accepts(c, map[string]interface{}{"a": x}) == okFor("c", x), "a property of any value, null or empty too, is judged by the rule that applies to it")
}

// What is allowed beyond the declared properties can be set again, before or
// after they are declared.
func Spec_C08_again() {
	k, x := v.Str("k"), v.Str("x")
	c := jsval.Object()
	late := v.Choose(2) == 1
	pick := v.Choose(4)
	set := func() {
		switch pick {
		case 0:
			c.AdditionalProperties(jsval.EmptyConstraint).AdditionalProperties(nil)
		case 1:
			c.AdditionalProperties(child{"old"}).AdditionalProperties(jsval.EmptyConstraint)
		case 2:
			c.AdditionalProperties(nil).AdditionalProperties(child{"add"})
		default:
			c.AdditionalProperties(jsval.EmptyConstraint).AdditionalProperties(child{"add"})
		}
	}
	if !late {
		set()
	}
	rx := v.Regexp("r")
	c.PatternProperties(rx, child{"old"}).PatternProperties(rx, child{"pat"})
	c.AddProp("a", child{"old"}).AddProp("b", jsval.EmptyConstraint).AddProp("a", child{"a"})
	if late {
		set()
	}
	var want bool
	switch {
	case k == "a":
		want = okFor("a", x)
	case k == "b":
		want = true
	case rx.MatchString(k):
		want = okFor("pat", x)
	default:
		want = pick == 1 || pick > 1 && okFor("add", x)
	}
	v.Assert(accepts(c, map[string]interface{}{k: x}) == want, "a rule for properties set again replaces the earlier one, and the order of the rules does not matter")
}
