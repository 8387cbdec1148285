package verifharness

import (
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

func Spec_C06_type() {
	x, kind := anyScalar("x")
	v.Assert(accepts(jsval.Array(), x) == (kind == kArray), "an array constraint accepts lists and no other JSON value")
}

// Lists of any length.
func Spec_C06_counts() {
	var l []interface{}
	switch v.Choose(4) {
	case 0:
		l = []interface{}{}
	case 1:
		l = []interface{}{v.Str("a")}
	case 2:
		l = v.List[interface{}]("some", "+", v.Many[float64]("e"))
	default:
		l = v.List[interface{}]("more", "1+1", v.Str("a"), v.Many[float64]("e"), nil)
	}
	c := jsval.Array()
	hasMin, hasMax := v.Choose(2) == 1, v.Choose(2) == 1
	min, max := v.Int("minItems"), v.Int("maxItems")
	v.Assume(min >= 0 && max >= 0)
	want := true
	if hasMin {
		c.MinItems(min)
		want = want && len(l) >= min
	}
	if hasMax {
		c.MaxItems(max)
		want = want && len(l) <= max
	}
	got := accepts(c, l)
	v.Assert(!got || want, "a list with fewer items than minItems or more than maxItems is rejected")
	v.Assert(got || !want, "a list whose length is within minItems and maxItems is accepted")
}

// item is an arbitrary JSON value, possibly a list or an object of one atom.
func item(name string, deep bool) (interface{}, int) {
	x, k := anyJSON(name)
	if !deep {
		v.Assume(k != kArray && k != kObject)
		return x, k
	}
	switch k {
	case kArray:
		in := v.Str(name + ".0")
		if v.Choose(2) == 1 {
			return []interface{}{in, v.Str(name + ".1")}, k
		}
		return []interface{}{in}, k
	case kObject:
		return map[string]interface{}{v.Str(name + ".k"): v.Str(name + ".v")}, k
	}
	return x, k
}

func Spec_C06_unique() {
	x, _ := item("x", true)
	y, _ := item("y", true)
	c := jsval.Array().UniqueItems(true)
	l := []interface{}{x, y}
	same := v.DeepEq(x, y)
	got := accepts(c, l)
	v.Assert(!got || !same, "uniqueItems: a list with two equal items is rejected")
	v.Assert(got || same, "uniqueItems: a list of different items is accepted")
	off := jsval.Array()
	if v.Choose(2) == 1 {
		off.UniqueItems(true)
		off.UniqueItems(false)
	}
	v.Assert(accepts(off, l), "without uniqueItems a list may repeat items")
}

// The two equal items may stand anywhere among any number of others.
func Spec_C06_uniqueany() {
	x, _ := item("x", false)
	y, _ := item("y", false)
	v.Assume(v.DeepEq(x, y))
	o := v.Many[string]("o")
	var l []interface{}
	switch v.Choose(4) {
	case 0:
		l = v.List[interface{}]("l0", "1+1", x, o, y)
	case 1:
		l = v.List[interface{}]("l1", "+11", o, x, y)
	case 2:
		l = v.List[interface{}]("l2", "11+", x, y, o)
	default:
		l = v.List[interface{}]("l3", "+1+1+", o, x, o, y, o)
	}
	v.Assert(!accepts(jsval.Array().UniqueItems(true), l), "uniqueItems: equal items are found wherever they stand")
}

func Spec_C06_unique3() {
	x, kx := item("x", false)
	y, ky := item("y", false)
	z, kz := item("z", false)
	same := sameAtom(x, kx, y, ky) || sameAtom(y, ky, z, kz) || sameAtom(x, kx, z, kz)
	v.Assert(accepts(jsval.Array().UniqueItems(true), []interface{}{x, y, z}) == !same, "uniqueItems: three items are accepted exactly when they differ pairwise")
}

// The rules hold side by side.
func Spec_C06_together() {
	c := jsval.Array()
	l := []interface{}{}
	n := v.Choose(4)
	x, y := v.Str("x"), v.Str("y")
	for i := 0; i < n; i++ {
		l = append(l, []interface{}{x, y, nil}[i])
	}
	want := true
	if v.Choose(2) == 1 {
		min := v.Int("minItems")
		v.Assume(min >= 0)
		c.MinItems(min)
		want = want && n >= min
	}
	if v.Choose(2) == 1 {
		max := v.Int("maxItems")
		v.Assume(max >= 0)
		c.MaxItems(max)
		want = want && n <= max
	}
	if v.Choose(2) == 1 {
		c.UniqueItems(true)
		want = want && (n < 2 || x != y)
	}
	switch v.Choose(4) {
	case 1:
		c.Items(jsval.EmptyConstraint)
	case 2:
		c.PositionalItems([]jsval.Constraint{jsval.EmptyConstraint, jsval.EmptyConstraint})
	case 3:
		c.PositionalItems([]jsval.Constraint{jsval.EmptyConstraint}).AdditionalItems(nil)
		want = want && n <= 1
	}
	v.Assert(accepts(c, l) == want, "length and uniqueness rules hold side by side, with and without rules for items")
}

// A keyword set again replaces what was set before, in any order.
func Spec_C06_again() {
	x, y := v.Str("x"), v.Str("y")
	l := []interface{}{x, y, nil}[:v.Choose(4)]
	min, max := v.Int("minItems"), v.Int("maxItems")
	a, b := v.Int("a"), v.Int("b")
	v.Assume(min >= 0 && max >= 0 && a >= 0 && b >= 0)
	unique := v.Choose(2) == 1
	c := jsval.Array()
	if v.Choose(2) == 1 {
		c.UniqueItems(!unique).MaxItems(a).MinItems(b).MinItems(min).MaxItems(max).UniqueItems(unique)
	} else {
		c.MinItems(a).MaxItems(b).UniqueItems(!unique).UniqueItems(unique).MaxItems(max).MinItems(min)
	}
	want := len(l) >= min && len(l) <= max && !(unique && len(l) > 1 && x == y)
	v.Assert(accepts(c, l) == want, "a length or uniqueness rule set again replaces the earlier one")
}
