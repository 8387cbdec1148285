package verifharness

import (
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// numSpec is a set of numeric keywords.
type numSpec struct {
	hasMin, exMin, hasMax, exMax, hasMul, hasEnum bool
	min, max, mul                                 float64
	enum                                          []interface{}
}

func anyNumSpec(enum bool) numSpec {
	var s numSpec
	if v.Choose(2) == 1 {
		s.hasMin, s.min = true, v.Float("minimum")
	}
	if v.Choose(2) == 1 {
		s.exMin = true
	}
	if v.Choose(2) == 1 {
		s.hasMax, s.max = true, v.Float("maximum")
	}
	if v.Choose(2) == 1 {
		s.exMax = true
	}
	if v.Choose(2) == 1 {
		s.hasMul, s.mul = true, v.Float("multipleOf")
		v.Assume(s.mul > 0)
	}
	if enum && v.Choose(2) == 1 {
		s.hasEnum = true
		s.enum = []interface{}{v.Float("enum0"), v.Float("enum1")}
	}
	return s
}

func (s numSpec) number() *jsval.NumberConstraint {
	c := jsval.Number()
	if s.hasMin {
		c.Minimum(s.min)
	}
	if s.hasMax {
		c.Maximum(s.max)
	}
	if s.exMin {
		c.ExclusiveMinimum(true)
	}
	if s.exMax {
		c.ExclusiveMaximum(true)
	}
	if s.hasMul {
		c.MultipleOf(s.mul)
	}
	if s.hasEnum {
		c.Enum(s.enum...)
	}
	return c
}

func (s numSpec) integer() *jsval.IntegerConstraint {
	c := jsval.Integer()
	if s.hasMin {
		c.Minimum(s.min)
	}
	if s.hasMax {
		c.Maximum(s.max)
	}
	if s.exMin {
		c.ExclusiveMinimum(true)
	}
	if s.exMax {
		c.ExclusiveMaximum(true)
	}
	if s.hasMul {
		c.MultipleOf(s.mul)
	}
	if s.hasEnum {
		c.Enum(s.enum...)
	}
	return c
}

// holds is the meaning of the keywords for a number.
func (s numSpec) holds(f float64) bool {
	if s.hasMin {
		if s.exMin {
			if !(f > s.min) {
				return false
			}
		} else if !(f >= s.min) {
			return false
		}
	}
	if s.hasMax {
		if s.exMax {
			if !(f < s.max) {
				return false
			}
		} else if !(f <= s.max) {
			return false
		}
	}
	if s.hasMul && !v.Divisible(f, s.mul) {
		return false
	}
	if s.hasEnum && f != s.enum[0].(float64) && f != s.enum[1].(float64) {
		return false
	}
	return true
}

func Spec_C01_number() {
	s := anyNumSpec(true)
	c := s.number()
	x, _ := anyScalar("x")
	got := accepts(c, x)
	f, isFloat, _ := numberOf(x)
	if got {
		v.Reach("accepted")
	} else {
		v.Reach("rejected")
	}
	if !isFloat {
		v.Assert(!got, "a value that is not a floating-point number is rejected by a number constraint")
		return
	}
	want := s.holds(f)
	v.Assert(!got || want, "a number that breaks a declared bound, multipleOf or enum is rejected")
	v.Assert(got || !want, "a number that satisfies every declared keyword is accepted")
}

func Spec_C01_integer() {
	s := anyNumSpec(true)
	c := s.integer()
	x, _ := anyScalar("x")
	got := accepts(c, x)
	f, isFloat, isNum := numberOf(x)
	if got {
		v.Reach("accepted")
	} else {
		v.Reach("rejected")
	}
	if !isNum {
		v.Assert(!got, "a value that is not numeric is rejected by an integer constraint")
		return
	}
	want := s.holds(f) && (!isFloat || v.IsInt(f))
	v.Assert(!got || want, "an integer that breaks a declared bound, multipleOf or enum, or a fractional number, is rejected")
	v.Assert(got || !want, "an integer of any Go width that satisfies every declared keyword is accepted")
}

func Spec_C01_pointers() {
	s := anyNumSpec(false)
	if v.Choose(2) == 0 {
		f := v.Float("x")
		got := accepts(s.number(), &f)
		v.Assert(got == s.holds(f), "a pointer to a number is judged by the number it points to")
	} else {
		i := v.Int("x")
		got := accepts(s.integer(), &i)
		v.Assert(got == s.holds(float64(i)), "a pointer to an integer is judged by the integer it points to")
	}
}

// An integer constraint stays one while keywords are chained onto it.
func Spec_C01_chained() {
	m := v.Float("multipleOf")
	v.Assume(m > 0)
	var c jsval.Constraint
	switch v.Choose(5) {
	case 0:
		c = jsval.Integer().MultipleOf(m)
	case 1:
		c = jsval.Integer().Minimum(m).ExclusiveMinimum(true)
	case 2:
		c = jsval.Integer().Maximum(m).ExclusiveMaximum(true)
	case 3:
		c = jsval.Integer().Enum(m)
	default:
		c = jsval.Integer().Default(m)
	}
	f := v.Float("x")
	v.Assume(!v.IsInt(f))
	v.Assert(!accepts(c, f), "an integer constraint rejects fractional numbers however its keywords were set")
}

// The order in which keywords are set does not matter, and a keyword set
// again replaces what was set before.
func Spec_C01_order() {
	s := anyNumSpec(false)
	e0, e1 := v.Float("enum0"), v.Float("enum1")
	a, b := v.Float("a"), v.Float("b")
	v.Assume(a > 0 && b > 0)
	again := v.Choose(2) == 1
	enum := v.Choose(3)
	whole := v.Choose(2) == 1
	n, i := jsval.Number(), jsval.Integer()
	switch {
	case again:
		n.Minimum(a).Maximum(b).ExclusiveMinimum(!s.exMin).ExclusiveMaximum(!s.exMax)
		i.Minimum(a).Maximum(b).ExclusiveMinimum(!s.exMin).ExclusiveMaximum(!s.exMax)
		if s.hasMul {
			n.MultipleOf(a)
			i.MultipleOf(a)
		}
		if enum > 0 {
			n.Enum(a, b, "x", 1.5)
			i.Enum(a, b, "x", 1.5)
		}
		// bounds cannot be taken back
		if !s.hasMin {
			s.hasMin, s.min = true, a
		}
		if !s.hasMax {
			s.hasMax, s.max = true, b
		}
		n.ExclusiveMinimum(s.exMin).ExclusiveMaximum(s.exMax)
		i.ExclusiveMinimum(s.exMin).ExclusiveMaximum(s.exMax)
	}
	if enum == 1 {
		n.Enum(e0, e1)
		i.Enum(e0, e1)
	} else if enum == 2 {
		n.Enum()
		i.Enum()
	}
	if s.hasMul {
		n.MultipleOf(s.mul)
		i.MultipleOf(s.mul)
	}
	if !again && v.Choose(2) == 1 {
		n.ExclusiveMinimum(s.exMin)
		i.ExclusiveMinimum(s.exMin)
		n.ExclusiveMaximum(s.exMax)
		i.ExclusiveMaximum(s.exMax)
	} else {
		if s.exMin {
			n.ExclusiveMinimum(true)
			i.ExclusiveMinimum(true)
		}
		if s.exMax {
			n.ExclusiveMaximum(true)
			i.ExclusiveMaximum(true)
		}
	}
	if s.hasMax {
		n.Maximum(s.max)
		i.Maximum(s.max)
	}
	if s.hasMin {
		n.Minimum(s.min)
		i.Minimum(s.min)
	}
	f := v.Float("x")
	want := s.holds(f)
	switch enum {
	case 1:
		want = want && (f == e0 || f == e1)
	case 2:
		want = false
	}
	if whole {
		v.Assert(accepts(i, f) == (want && v.IsInt(f)), "the order in which the keywords of an integer constraint are set does not matter, a keyword set again replaces the earlier one, and an enum without values accepts nothing")
	} else {
		v.Assert(accepts(n, f) == want, "the order in which the keywords of a number constraint are set does not matter, a keyword set again replaces the earlier one, and an enum without values accepts nothing")
	}
}
