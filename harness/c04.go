package verifharness

import (
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// family is a list of any number of constraints: up to two arbitrary ones
// among any number of rejecting (or accepting) ones.
type family struct {
	list               []jsval.Constraint
	a, b               bool // the arbitrary ones are present
	many               bool // others are present
	verdict            bool // of the others
}

func anyFamily() family {
	var f family
	f.verdict = v.Choose(2) == 1
	others := func(class string) {
		if v.Choose(2) == 1 {
			f.many = true
			f.list = append(f.list, manyFixed(class, f.verdict))
		}
	}
	others("first")
	if v.Choose(2) == 1 {
		f.a = true
		f.list = append(f.list, child{"a"})
	}
	others("between")
	if v.Choose(2) == 1 {
		f.b = true
		f.list = append(f.list, child{"b"})
	}
	others("last")
	return f
}

func (f family) accepting(x interface{}) (n int, all bool) {
	all = true
	if f.a {
		if okFor("a", x) {
			n++
		} else {
			all = false
		}
	}
	if f.b {
		if okFor("b", x) {
			n++
		} else {
			all = false
		}
	}
	if f.many && !f.verdict {
		all = false
	}
	return n, all
}

func Spec_C04_any() {
	f := anyFamily()
	c := jsval.Any()
	for _, k := range f.list {
		c.Add(k)
	}
	x, _ := anyJSON("x")
	n, _ := f.accepting(x)
	want := n > 0 || f.many && f.verdict
	var got bool
	if v.Choose(2) == 1 {
		got = accepts(c.Reduce(), x)
	} else {
		got = accepts(c, x)
	}
	v.Assert(!got || want, "any: a value that no member accepts is rejected")
	v.Assert(got || !want, "any: a value that some member accepts is accepted")
}

func Spec_C04_all() {
	f := anyFamily()
	c := jsval.All()
	for _, k := range f.list {
		c.Add(k)
	}
	x, _ := anyJSON("x")
	_, want := f.accepting(x)
	var got bool
	if v.Choose(2) == 1 {
		got = accepts(c.Reduce(), x)
	} else {
		got = accepts(c, x)
	}
	v.Assert(!got || want, "all: a value that some member rejects is rejected")
	v.Assert(got || !want, "all: a value that every member accepts is accepted")
}

func Spec_C04_oneof() {
	f := anyFamily()
	c := jsval.OneOf()
	for _, k := range f.list {
		c.Add(k)
	}
	x, _ := anyJSON("x")
	n, _ := f.accepting(x)
	var got bool
	if v.Choose(2) == 1 {
		got = accepts(c.Reduce(), x)
	} else {
		got = accepts(c, x)
	}
	if f.many && f.verdict {
		if n > 0 {
			v.Assert(!got, "one of: a value that several members accept is rejected")
		}
		return
	}
	v.Assert(!got || n == 1, "one of: a value accepted by no member or by several is rejected")
	v.Assert(got || n != 1, "one of: a value accepted by exactly one member is accepted")
}

func Spec_C04_oneof2() {
	// several accepting members, none of them arbitrary
	c := jsval.OneOf().Add(fixed{"p", true}).Add(manyFixed("q", true))
	x, _ := anyJSON("x")
	v.Assert(!accepts(c, x), "one of: a value that several members accept is rejected")
}

func Spec_C04_not() {
	x, _ := anyJSON("x")
	v.Assert(accepts(jsval.Not(child{"a"}), x) == !okFor("a", x), "not: a value is accepted exactly when the negated constraint rejects it")
	v.Assert(accepts(jsval.Not(jsval.Not(child{"a"})), x) == okFor("a", x), "not: double negation is the constraint itself")
	v.Assert(!accepts(jsval.Not(nil), x), "not: without a constraint every value is rejected")
}

// Nested combinations keep their meaning.
func Spec_C04_nested() {
	x, _ := anyJSON("x")
	a, b := okFor("a", x), okFor("b", x)
	switch v.Choose(4) {
	case 0:
		c := jsval.All().Add(jsval.Any().Add(child{"a"}).Add(child{"b"})).Add(jsval.Not(jsval.All().Add(child{"a"}).Add(child{"b"})))
		v.Assert(accepts(c, x) == (a != b), "nested combinations: all, any and not")
	case 1:
		c := jsval.OneOf().Add(jsval.All().Add(child{"a"})).Add(jsval.Any().Add(child{"b"}))
		v.Assert(accepts(c, x) == (a != b), "nested combinations: one of")
	case 2:
		c := jsval.Not(jsval.OneOf().Add(child{"a"}).Add(child{"b"}))
		v.Assert(accepts(c, x) == (a == b), "nested combinations: not one of")
	default:
		c := jsval.Any().Add(jsval.Not(child{"a"})).Add(jsval.Not(child{"b"}))
		v.Assert(accepts(c, x) == !(a && b), "nested combinations: any not")
	}
}

// Members may occur more than once, and equal ones are still members.
func Spec_C04_twice() {
	x, _ := anyJSON("x")
	var k jsval.Constraint = child{"a"}
	ok := okFor("a", x)
	switch v.Choose(3) {
	case 1:
		p := &child{"a"}
		k = p
	case 2:
		k = jsval.String()
		_, ok = x.(string)
	}
	other := v.Choose(2) == 1
	want := ok
	var c interface {
		jsval.Constraint
		Reduce() jsval.Constraint
	}
	switch v.Choose(3) {
	case 0:
		o := jsval.OneOf().Add(k)
		if other {
			o.Add(child{"b"})
		}
		c = o.Add(k)
		want = !ok && other && okFor("b", x)
	case 1:
		a := jsval.Any().Add(k)
		if other {
			a.Add(child{"b"})
			want = want || okFor("b", x)
		}
		c = a.Add(k)
	default:
		a := jsval.All().Add(k)
		if other {
			a.Add(child{"b"})
			want = want && okFor("b", x)
		}
		c = a.Add(k)
	}
	if v.Choose(2) == 1 {
		v.Assert(accepts(c, x) == want, "a member that is listed twice counts twice")
	} else {
		v.Assert(accepts(c.Reduce(), x) == want, "a member that is listed twice counts twice")
	}
}

// The library's own constraints as members, the combinations among them.
func Spec_C04_members() {
	x, kind := anyJSON("x")
	a, b := okFor("a", x), okFor("b", x)
	var k jsval.Constraint
	var ok bool
	switch v.Choose(10) {
	case 0:
		k, ok = jsval.EmptyConstraint, true
	case 1:
		k, ok = jsval.NullConstraint, kind == kNull
	case 2:
		k, ok = jsval.Boolean(), kind == kBool
	case 3:
		k, ok = jsval.Enum(), false
	case 4:
		k, ok = jsval.OneOf().Add(child{"a"}).Add(child{"b"}), a != b
	case 5:
		k, ok = jsval.Any().Add(child{"a"}).Add(child{"b"}), a || b
	case 6:
		k, ok = jsval.All().Add(child{"a"}).Add(child{"b"}), a && b
	case 7:
		k, ok = jsval.Not(jsval.Not(child{"a"})), a
	case 8:
		k, ok = jsval.Not(jsval.EmptyConstraint), false
	default:
		k, ok = jsval.OneOf().Add(child{"a"}).Reduce(), a
	}
	place := v.Choose(4)
	c := func() (list []jsval.Constraint, n int, all bool) {
		all = ok
		if ok {
			n = 1
		}
		l := []jsval.Constraint{k}
		oc := okFor("c", x)
		switch place {
		case 1:
			l = []jsval.Constraint{k, child{"c"}}
		case 2:
			l = []jsval.Constraint{child{"c"}, k}
		case 3:
			l = []jsval.Constraint{k, k}
			oc = ok
		}
		if place > 0 {
			all = all && oc
			if oc {
				n++
			}
		}
		return l, n, all
	}
	l, n, all := c()
	var got, after, want bool
	switch v.Choose(3) {
	case 0:
		o := jsval.OneOf()
		for _, m := range l {
			o.Add(m)
		}
		got = accepts(o.Reduce(), x)
		after, want = accepts(o, x), n == 1
	case 1:
		o := jsval.Any()
		for _, m := range l {
			o.Add(m)
		}
		got = accepts(o.Reduce(), x)
		after, want = accepts(o, x), n > 0
	default:
		o := jsval.All()
		for _, m := range l {
			o.Add(m)
		}
		got = accepts(o.Reduce(), x)
		after, want = accepts(o, x), all
	}
	v.Assert(after == want, "a combination judges members of every kind alike")
	v.Assert(got == want, "the simplified form of a combination with members of any kind decides the same values")
}
