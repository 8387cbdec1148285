package verifharness

import (
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// place makes k a declared, a pattern or an additional property of c.
func place(c *jsval.ObjectConstraint, how int, k string) {
	switch how {
	case 0:
		c.AddProp(k, jsval.EmptyConstraint)
	case 1:
		rx := v.Regexp("pat")
		v.Assume(rx.MatchString(k))
		c.PatternProperties(rx, jsval.EmptyConstraint)
	}
	c.AdditionalProperties(jsval.EmptyConstraint)
}

func Spec_C09_required() {
	k, x := v.Str("k"), v.Str("x")
	r0, r1 := v.Str("r0"), v.Str("r1")
	v.Assume(r0 != r1)
	c := jsval.Object()
	place(c, v.Choose(3), k)
	if v.Choose(2) == 1 {
		c.AddProp(r0, jsval.EmptyConstraint)
	}
	n := v.Choose(3)
	switch n {
	case 1:
		c.Required(r0)
	case 2:
		if v.Choose(2) == 1 {
			c.Required(r0, r1)
		} else {
			c.Required(r0)
			c.Required(r1)
		}
	}
	m := map[string]interface{}{}
	has := v.Choose(2) == 1
	if has {
		m[k] = x
	}
	want := n < 1 || has && k == r0
	if n == 2 {
		want = false // one property cannot be both
	}
	got := accepts(c, m)
	v.Assert(!got || want, "an object that lacks a required property is rejected, whether or not the property is declared")
	v.Assert(got || !want, "an object that has every required property is accepted")
}

func Spec_C09_required2() {
	k0, k1 := v.Str("k0"), v.Str("k1")
	r0, r1 := v.Str("r0"), v.Str("r1")
	v.Assume(k0 != k1 && r0 != r1)
	c := jsval.Object().Required(r0, r1).AdditionalProperties(jsval.EmptyConstraint)
	if v.Choose(2) == 1 {
		c.AddProp(r1, jsval.EmptyConstraint)
	}
	m := map[string]interface{}{k0: v.Str("x0"), k1: nil}
	want := (r0 == k0 || r0 == k1) && (r1 == k0 || r1 == k1)
	v.Assert(accepts(c, m) == want, "a required property is present even when its value is null")
	v.Assert(c.IsPropRequired(r0) && c.IsPropRequired(r1), "required properties are reported as required")
	u := v.Str("u")
	if u != r0 && u != r1 {
		v.Assert(!c.IsPropRequired(u), "other properties are not reported as required")
	}
}

func Spec_C09_counts() {
	m := map[string]interface{}{}
	switch v.Choose(4) {
	case 1:
		m[v.Str("k")] = v.Str("x")
	case 2:
		v.Assume(v.Str("k0") != v.Str("k1"))
		m[v.Str("k0")] = v.Str("x")
		m[v.Str("k1")] = v.Str("y")
	case 3:
		v.Assume(v.Str("k0") != v.Str("k1") && v.Str("k0") != v.Str("k2") && v.Str("k1") != v.Str("k2"))
		m[v.Str("k0")] = v.Str("x")
		m[v.Str("k1")] = nil
		m[v.Str("k2")] = v.Str("y")
	}
	c := jsval.Object()
	place(c, v.Choose(3), "k")
	hasMin, hasMax := v.Choose(2) == 1, v.Choose(2) == 1
	min, max := v.Int("minProperties"), v.Int("maxProperties")
	v.Assume(min >= 0 && max >= 0)
	want := true
	if hasMin {
		c.MinProperties(min)
		want = want && len(m) >= min
	}
	if hasMax {
		c.MaxProperties(max)
		want = want && len(m) <= max
	}
	got := accepts(c, m)
	v.Assert(!got || want, "an object with fewer properties than minProperties or more than maxProperties is rejected")
	v.Assert(got || !want, "an object whose number of properties is within the bounds is accepted")
}

// The property that triggers a dependency and the ones it needs may be
// declared, match a pattern or be additional.
func Spec_C09_propdeps() {
	from, to0, to1 := "from", "to0", "to1"
	c := jsval.Object()
	place(c, v.Choose(3), from)
	place(c, v.Choose(3), to0)
	n := 1 + v.Choose(2)
	if n == 1 {
		c.PropDependency(from, to0)
	} else if v.Choose(2) == 1 {
		c.PropDependency(from, to0, to1)
	} else {
		c.PropDependency(from, to0)
		c.PropDependency(from, to1)
	}
	m := map[string]interface{}{}
	hf, h0, h1 := v.Choose(2) == 1, v.Choose(2) == 1, v.Choose(2) == 1
	if hf {
		m[from] = v.Str("x")
	}
	if h0 {
		m[to0] = v.Str("y")
	}
	if h1 {
		m[to1] = nil
	}
	want := !hf || h0 && (n == 1 || h1)
	got := accepts(c, m)
	v.Assert(!got || want, "an object that has a property but lacks one it depends on is rejected")
	v.Assert(got || !want, "an object whose property dependencies are met is accepted")
	deps := c.GetPropDependencies(from)
	v.Assert(len(deps) == n && deps[0] == to0, "declared property dependencies are reported")
	v.Assert(len(c.GetPropDependencies("other")) == 0, "no property dependencies are reported for other properties")
}

// Two properties with dependencies of their own.
func Spec_C09_propdeps2() {
	a, b := v.Str("a"), v.Str("b")
	p, q := v.Str("p"), v.Str("q")
	v.Assume(a != b && a != p && a != q && b != p && b != q && p != q)
	c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
	c.PropDependency(a, p)
	c.PropDependency(b, q)
	m := map[string]interface{}{a: v.Str("x"), b: v.Str("y")}
	hp, hq := v.Choose(2) == 1, v.Choose(2) == 1
	if hp {
		m[p] = v.Str("z")
	}
	if hq {
		m[q] = v.Str("w")
	}
	v.Assert(accepts(c, m) == (hp && hq), "every present property's dependencies are checked")
}

func Spec_C09_schemadeps() {
	from := "from"
	c := jsval.Object()
	place(c, v.Choose(3), from)
	c.SchemaDependency(from, onObject{child{"dep"}})
	m := map[string]interface{}{}
	hf := v.Choose(2) == 1
	if hf {
		m[from] = v.Str("x")
	}
	if v.Choose(2) == 1 {
		m["more"] = v.Str("y")
	}
	got := accepts(c, m)
	want := !hf || okFor("dep", "whole")
	v.Assert(!got || want, "an object with a property whose schema dependency the object breaks is rejected")
	v.Assert(got || !want, "an object that meets its schema dependencies is accepted")
}

// onObject is an arbitrary constraint on whole objects.
type onObject struct{ child }

func (c onObject) Validate(x interface{}) error {
	if _, ok := x.(map[string]interface{}); !ok {
		v.Assert(false, "a schema dependency is checked against the whole object")
	}
	return c.child.Validate("whole")
}

// The rules hold side by side, for properties of any value.
func Spec_C09_together() {
	c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
	m := map[string]interface{}{}
	var has [3]bool
	names := []string{"a", "b", "c"}
	for i, k := range names {
		if v.Choose(2) == 1 {
			has[i] = true
			m[k] = []interface{}{nil, v.Str("x"), ""}[i]
		}
	}
	switch v.Choose(4) {
	case 1:
		c.AddProp("a", jsval.EmptyConstraint).AddProp("b", jsval.EmptyConstraint)
	case 2:
		c.PatternPropertiesString("^[ab]$", jsval.EmptyConstraint)
	case 3:
		c.AddProp("c", jsval.EmptyConstraint).AddProp("z", jsval.EmptyConstraint)
	}
	want := true
	switch v.Choose(3) {
	case 1:
		c.Required("a")
		want = want && has[0]
	case 2:
		c.Required("b", "a")
		want = want && has[0] && has[1]
	}
	bound := v.Int("bound")
	v.Assume(bound >= 0)
	switch v.Choose(4) {
	case 1:
		c.MinProperties(bound)
		want = want && len(m) >= bound
	case 2:
		c.MaxProperties(bound)
		want = want && len(m) <= bound
	case 3:
		c.MinProperties(bound).MaxProperties(2)
		want = want && len(m) >= bound && len(m) <= 2
	}
	switch v.Choose(3) {
	case 1:
		c.PropDependency("c", "a")
		want = want && (!has[2] || has[0])
	case 2:
		c.PropDependency("a", "b", "c").PropDependency("b", "a")
		want = want && (!has[0] || has[1] && has[2]) && (!has[1] || has[0])
	}
	if v.Choose(2) == 1 {
		c.SchemaDependency("b", onObject{child{"dep"}})
		// a name with dependencies of both kinds is left open
		v.Assume(len(c.GetPropDependencies("b")) == 0)
		want = want && (!has[1] || okFor("dep", "whole"))
	}
	v.Assert(accepts(c, m) == want, "required, count and dependency rules hold side by side, for properties of any value")
}

// A property that is absent does not count as present because it has a default.
func Spec_C09_defaults() {
	c := jsval.Object().AddProp("a", jsval.String().Default("d")).AddProp("b", jsval.EmptyConstraint)
	m := map[string]interface{}{}
	if v.Choose(2) == 1 {
		m["b"] = nil
	}
	n := len(m)
	want := true
	switch v.Choose(5) {
	case 0:
		c.PropDependency("a", "b")
	case 1:
		c.SchemaDependency("a", child{"dep"})
	case 2:
		c.MinProperties(1)
		want = n >= 1
	case 3:
		c.MaxProperties(n)
	case 4:
		c.PropDependency("b", "a")
		want = n == 0
	}
	v.Assert(accepts(c, m) == want, "the rules are about the properties the object was given, not about defaults")
}

// Counts and schema dependencies set again replace the earlier ones; required
// names and property dependencies add up.
func Spec_C09_again() {
	m := map[string]interface{}{}
	ha, hb, hd := v.Choose(2) == 1, v.Choose(2) == 1, v.Choose(2) == 1
	if ha {
		m["a"] = v.Str("x")
	}
	if hb {
		m["b"] = v.Str("y")
	}
	if hd {
		m["d"] = v.Str("z")
	}
	c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
	var want bool
	switch v.Choose(5) {
	case 0:
		min, max := v.Int("minProperties"), v.Int("maxProperties")
		p, q := v.Int("p"), v.Int("q")
		v.Assume(min >= 0 && max >= 0 && p >= 0 && q >= 0)
		c.MinProperties(p).MaxProperties(q).MaxProperties(max).MinProperties(min)
		want = len(m) >= min && len(m) <= max
	case 1:
		c.Required("a").Required().Required("b", "a")
		want = ha && hb
	case 2:
		c.PropDependency("a", "b").PropDependency("a").PropDependency("a", "d")
		want = !ha || hb && hd
	case 3:
		c.SchemaDependency("a", fixed{"old", false}).SchemaDependency("a", onObject{child{"dep"}})
		want = !ha || okFor("dep", "whole")
	default:
		c.Required("b").PropDependency("b", "d").SchemaDependency("d", onObject{child{"dep"}}).MinProperties(2)
		want = hb && hd && okFor("dep", "whole")
	}
	v.Assert(accepts(c, m) == want, "counts set again replace the earlier ones, and required names and dependencies add up")
}
