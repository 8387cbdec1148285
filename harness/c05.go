package verifharness

import (
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// defchild is an arbitrary constraint with a default.
type defchild struct {
	child
	def interface{}
}

func (c defchild) HasDefault() bool          { return true }
func (c defchild) DefaultValue() interface{} { return c.def }

func Spec_C05_resolve() {
	cm := &jsval.ConstraintMap{}
	name, other := v.Str("name"), v.Str("other")
	v.Assume(name != other)
	registered := v.Choose(2) == 1
	order := v.Choose(2) == 1
	if !order {
		cm.SetReference(other, child{"other"})
	}
	if registered {
		cm.SetReference(name, child{"target"})
	}
	if order {
		cm.SetReference(other, child{"other"})
	}
	r := jsval.Reference(cm).RefersTo(name)
	x, _ := anyJSON("x")
	got := accepts(r, x)
	if registered {
		v.Assert(got == okFor("target", x), "a reference's verdict is that of the constraint registered under its name")
	} else {
		v.Assert(!got, "a reference that does not resolve rejects every value")
		_, err := r.Resolved()
		v.Assert(err != nil, "a reference that does not resolve reports an error")
	}
	y, _ := anyJSON("y")
	got = accepts(r, y)
	if registered {
		v.Assert(got == okFor("target", y), "a reference keeps its meaning on later use")
	}
}

// A reference may be built before its target is registered.
func Spec_C05_late() {
	cm := &jsval.ConstraintMap{}
	name := v.Str("name")
	r := jsval.Reference(cm).RefersTo(name)
	x, _ := anyJSON("x")
	if v.Choose(2) == 1 {
		v.Assert(!accepts(r, x), "a reference that does not resolve rejects every value")
	}
	cm.SetReference(name, child{"target"})
	v.Assert(accepts(r, x) == okFor("target", x), "a reference resolves once its target is registered, even after an earlier failure")
}

func Spec_C05_map() {
	cm := &jsval.ConstraintMap{}
	a, b := v.Str("a"), v.Str("b")
	cm.SetReference(a, child{"a1"})
	n := cm.Len()
	v.Assert(n == 1, "the number of references is the number of registered names")
	cm.SetReference(b, child{"b1"})
	want := "a1"
	if a == b {
		want = "b1"
		v.Assert(cm.Len() == 1, "registering a name again replaces it")
	} else {
		v.Assert(cm.Len() == 2, "the number of references is the number of registered names")
	}
	c, err := cm.GetReference(a)
	v.Assert(err == nil && c.(child).id == want, "a registered name yields the constraint registered last under it")
	c, err = cm.GetReference(b)
	v.Assert(err == nil && c.(child).id == "b1", "a registered name yields the constraint registered last under it")
	u := v.Str("u")
	if u != a && u != b {
		_, err := cm.GetReference(u)
		v.Assert(err != nil, "an unregistered name yields an error")
	}
}

func Spec_C05_default() {
	cm := &jsval.ConstraintMap{}
	d, _ := anyJSON("d")
	with := v.Choose(2) == 1
	if with {
		cm.SetReference("t", defchild{child{"target"}, d})
	} else {
		cm.SetReference("t", child{"target"})
	}
	r := jsval.Reference(cm).RefersTo("t")
	v.Assert(r.HasDefault() == with, "a reference has a default exactly when its target has one")
	if with {
		v.Assert(v.DeepEq(r.DefaultValue(), d), "a reference's default is its target's")
	}
	u := jsval.Reference(cm).RefersTo("missing")
	v.Assert(!u.HasDefault() && u.DefaultValue() == nil, "an unresolved reference has no default")
}

// Chains of references.
func Spec_C05_chain() {
	cm := &jsval.ConstraintMap{}
	cm.SetReference("one", jsval.Reference(cm).RefersTo("two"))
	cm.SetReference("two", jsval.Array().Items(jsval.Reference(cm).RefersTo("three")))
	cm.SetReference("three", child{"target"})
	r := jsval.Reference(cm).RefersTo("one")
	x, _ := anyJSON("x")
	v.Assert(accepts(r, []interface{}{x}) == okFor("target", x), "references to references resolve through the whole chain")
}

func Spec_C05_shared() {
	// validators sharing one map
	cm := &jsval.ConstraintMap{}
	cm.SetReference("t", child{"target"})
	a := jsval.New().SetConstraintMap(cm)
	a.SetRoot(jsval.Reference(a).RefersTo("t"))
	b := jsval.New()
	b.SetReference("t", child{"b"})
	b.SetRoot(jsval.Reference(b).RefersTo("t"))
	x, _ := anyJSON("x")
	v.Assert(accepts(a, x) == okFor("target", x), "a validator resolves references in the map it was given")
	v.Assert(accepts(b, x) == okFor("b", x), "a validator resolves references in its own map")
}

// The target of a reference can be changed until it is first used.
func Spec_C05_retarget() {
	cm := &jsval.ConstraintMap{}
	a, b := v.Str("a"), v.Str("b")
	v.Assume(a != b)
	cm.SetReference(a, child{"a"})
	cm.SetReference(b, child{"b"})
	r := jsval.Reference(cm).RefersTo(a)
	same := r.RefersTo(b)
	x, _ := anyJSON("x")
	v.Assert(accepts(same, x) == okFor("b", x), "a reference refers to the name it was given last")
	v.Assert(accepts(r, x) == okFor("b", x), "a reference refers to the name it was given last")
}

// A chain keeps its meaning in whatever order its links are used first.
func Spec_C05_chain_order() {
	cm := &jsval.ConstraintMap{}
	two := jsval.Reference(cm).RefersTo("three")
	one := jsval.Reference(cm).RefersTo("two")
	zero := jsval.Reference(cm).RefersTo("one")
	cm.SetReference("one", one)
	cm.SetReference("two", two)
	if v.Choose(2) == 1 {
		accepts(one, "early")
	}
	d, _ := anyJSON("d")
	cm.SetReference("three", defchild{child{"target"}, d})
	x, _ := anyJSON("x")
	switch v.Choose(4) {
	case 0:
		accepts(two, x)
	case 1:
		accepts(one, x)
	case 2:
		zero.HasDefault()
	}
	v.Assert(accepts(zero, x) == okFor("target", x), "references to references resolve through the whole chain")
	v.Assert(zero.HasDefault() && v.DeepEq(zero.DefaultValue(), d), "a reference's default is its target's")
	c, err := zero.Resolved()
	v.Assert(err == nil && accepts(c, x) == okFor("target", x), "references to references resolve through the whole chain")
}
