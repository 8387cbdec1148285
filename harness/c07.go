package verifharness

import (
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// onStrings judges strings by an arbitrary predicate and lets anything else
// pass.
type onStrings struct{ child }

func (c onStrings) Validate(x interface{}) error {
	if s, ok := x.(string); ok {
		return c.child.Validate(s)
	}
	return nil
}

func Spec_C07_items() {
	// any list, with one item in the middle singled out
	x, y := v.Str("x"), v.Str("y")
	other := v.Many[float64]("other")
	var l []interface{}
	want := okFor("item", x)
	switch v.Choose(6) {
	case 0:
		l, want = []interface{}{}, true
	case 1:
		l = []interface{}{x}
	case 2:
		l = v.List[interface{}]("l2", "+1", other, x)
	case 3:
		l = v.List[interface{}]("l3", "1+", x, other)
	case 4:
		l = v.List[interface{}]("l4", "+1+", other, x, other)
	default:
		l = v.List[interface{}]("l5", "+1+1", other, x, other, y)
		want = want && okFor("item", y)
	}
	c := jsval.Array().Items(onStrings{child{"item"}})
	if v.Choose(2) == 1 {
		// items given for every place make positional ones irrelevant
		c.PositionalItems([]jsval.Constraint{fixed{"pos", false}})
		c.AdditionalItems(nil)
	}
	got := accepts(c, l)
	v.Assert(!got || want, "items: a list with an item the constraint rejects is rejected, wherever the item stands")
	v.Assert(got || !want, "items: a list whose items all satisfy the constraint is accepted")
}

func Spec_C07_positional() {
	np := v.Choose(3)
	n := v.Choose(5)
	ids := []string{"p0", "p1"}
	xs := []string{v.Str("x0"), v.Str("x1"), v.Str("x2"), v.Str("x3")}
	var pos []jsval.Constraint
	for i := 0; i < np; i++ {
		pos = append(pos, child{ids[i]})
	}
	var l []interface{}
	for i := 0; i < n; i++ {
		l = append(l, xs[i])
	}
	if l == nil {
		l = []interface{}{}
	}
	c := jsval.Array()
	if np > 0 || v.Choose(2) == 1 {
		c.PositionalItems(pos)
	}
	mode := v.Choose(4)
	switch mode {
	case 0:
	case 1:
		c.AdditionalItems(jsval.EmptyConstraint)
	case 2:
		c.AdditionalItems(nil)
	default:
		c.AdditionalItems(child{"add"})
	}
	want := true
	for i := 0; i < n; i++ {
		switch {
		case i < np:
			if !okFor(ids[i], xs[i]) {
				want = false
			}
		case np == 0:
		case mode == 2:
			want = false
		case mode == 3:
			if !okFor("add", xs[i]) {
				want = false
			}
		}
	}
	got := accepts(c, l)
	v.Assert(!got || want, "positional items: an item its own place's constraint, or the constraint for additional items, rejects makes the list invalid")
	v.Assert(got || !want, "positional items: a list whose items all satisfy the constraint of their place is accepted")
}

// Any number of additional items.
func Spec_C07_tail() {
	x, y := v.Str("x"), v.Str("y")
	other := v.Many[float64]("other")
	l := v.List[interface{}]("t", "1+1+", x, other, y, other)
	c := jsval.Array().PositionalItems([]jsval.Constraint{child{"p0"}}).AdditionalItems(onStrings{child{"add"}})
	got := accepts(c, l)
	want := okFor("p0", x) && okFor("add", y)
	v.Assert(!got || want, "additional items: every item beyond the positional ones is checked")
	v.Assert(got || !want, "additional items: items beyond the positional ones that satisfy their constraint are accepted")
	c.AdditionalItems(nil)
	v.Assert(!accepts(c, l), "additional items: none are allowed when forbidden")
}

// Typed lists are judged like generic ones.
func Spec_C07_typed() {
	x, y := v.Str("x"), v.Str("y")
	n := v.Choose(3)
	l := []string{x, y}[:n]
	c := jsval.Array().Items(child{"item"})
	want := (n < 1 || okFor("item", x)) && (n < 2 || okFor("item", y))
	v.Assert(accepts(c, l) == want, "a list of strings is judged like a generic list")
}

// Constraints apply together.
func Spec_C07_together() {
	x, y := v.Str("x"), v.Str("y")
	c := jsval.Array().Items(child{"item"}).UniqueItems(true).MaxItems(1)
	if v.Choose(2) == 1 {
		c.MaxItems(2)
		want := x != y && okFor("item", x) && okFor("item", y)
		v.Assert(accepts(c, []interface{}{x, y}) == want, "item, uniqueness and count constraints apply together")
	} else {
		v.Assert(!accepts(c, []interface{}{x, y}), "item, uniqueness and count constraints apply together")
	}
}

// Items of every kind, null included, at every place.
func Spec_C07_kinds() {
	n := 1 + v.Choose(3)
	names := []string{"k0", "k1", "k2"}
	var l []interface{}
	for i := 0; i < n; i++ {
		switch v.Choose(4) {
		case 0:
			l = append(l, nil)
		case 1:
			l = append(l, v.Str(names[i]))
		case 2:
			l = append(l, v.Float(names[i]))
		case 3:
			l = append(l, []interface{}{})
		}
	}
	c := jsval.Array()
	want := true
	switch v.Choose(3) {
	case 0:
		c.Items(child{"item"})
		for _, x := range l {
			want = want && okFor("item", x)
		}
	case 1:
		c.PositionalItems([]jsval.Constraint{child{"p0"}, child{"p1"}}).AdditionalItems(child{"add"})
		for i, x := range l {
			want = want && okFor([]string{"p0", "p1", "add"}[i], x)
		}
	case 2:
		c.PositionalItems([]jsval.Constraint{child{"p0"}, child{"p1"}}).AdditionalItems(nil)
		for i, x := range l {
			want = want && i < 2 && okFor([]string{"p0", "p1", "add"}[i], x)
		}
	}
	v.Assert(accepts(c, l) == want, "items of every kind, null included, are judged by the constraint of their place")
}

// Any number of null items around one that is judged.
func Spec_C07_nulls() {
	x := v.Str("x")
	var null interface{}
	l := v.List[interface{}]("l", "+1+", null, x, null)
	c := jsval.Array().Items(onStrings{child{"item"}})
	v.Assert(accepts(c, l) == okFor("item", x), "null items do not keep the others from being judged")
}

// A keyword set again replaces what was set before, in any order.
func Spec_C07_again() {
	x, y := v.Str("x"), v.Str("y")
	l := []interface{}{x, y}[:v.Choose(3)]
	n := len(l)
	c := jsval.Array()
	want := true
	switch v.Choose(6) {
	case 0:
		c.Items(child{"old"}).Items(child{"item"})
		want = (n < 1 || okFor("item", x)) && (n < 2 || okFor("item", y))
	case 1:
		c.PositionalItems([]jsval.Constraint{child{"old"}, child{"old"}, child{"old"}}).PositionalItems([]jsval.Constraint{child{"p0"}}).AdditionalItems(child{"add"})
		want = (n < 1 || okFor("p0", x)) && (n < 2 || okFor("add", y))
	case 2:
		c.AdditionalItems(child{"add"}).PositionalItems([]jsval.Constraint{child{"p0"}})
		want = (n < 1 || okFor("p0", x)) && (n < 2 || okFor("add", y))
	case 3:
		c.AdditionalItems(nil).PositionalItems([]jsval.Constraint{child{"p0"}}).AdditionalItems(jsval.EmptyConstraint)
		want = n < 1 || okFor("p0", x)
	case 4:
		c.PositionalItems([]jsval.Constraint{child{"p0"}}).AdditionalItems(child{"old"}).AdditionalItems(nil)
		want = n < 1 || n < 2 && okFor("p0", x)
	default:
		c.AdditionalItems(child{"add"}).Items(child{"item"})
		want = (n < 1 || okFor("item", x)) && (n < 2 || okFor("item", y))
	}
	v.Assert(accepts(c, l) == want, "an item rule set again replaces the earlier one, and the order of the rules does not matter")
}
