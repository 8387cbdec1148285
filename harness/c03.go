package verifharness

import (
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

func Spec_C03_boolean() {
	x, kind := anyScalar("x")
	c := jsval.Boolean()
	if v.Choose(2) == 1 {
		c.Default(true)
	}
	v.Assert(accepts(c, x) == (kind == kBool), "a boolean constraint accepts exactly the booleans")
}

func Spec_C03_null() {
	x, kind := anyScalar("x")
	v.Assert(accepts(jsval.NullConstraint, x) == (kind == kNull), "a null constraint accepts null and no other JSON value")
	var p *int
	var m map[string]interface{}
	var s []interface{}
	n := v.Int("n")
	var fn func()
	var ch chan int
	switch v.Choose(10) {
	case 6:
		v.Assert(accepts(jsval.NullConstraint, fn), "a nil function is null")
	case 7:
		v.Assert(accepts(jsval.NullConstraint, ch), "a nil channel is null")
	case 8:
		v.Assert(!accepts(jsval.NullConstraint, []interface{}{}), "an empty list is not null")
	case 9:
		v.Assert(!accepts(jsval.NullConstraint, map[string]interface{}{}), "an empty object is not null")
	case 0:
		v.Assert(accepts(jsval.NullConstraint, p), "a nil pointer is null")
	case 1:
		v.Assert(accepts(jsval.NullConstraint, m), "a nil map is null")
	case 2:
		v.Assert(accepts(jsval.NullConstraint, s), "a nil slice is null")
	case 3:
		v.Assert(!accepts(jsval.NullConstraint, &n), "a pointer to a value is not null")
	case 4:
		v.Assert(!accepts(jsval.NullConstraint, []interface{}{x}), "a list is not null")
	case 5:
		v.Assert(!accepts(jsval.NullConstraint, map[string]interface{}{"a": x}), "an object is not null")
	}
}

func Spec_C03_empty() {
	x, _ := anyScalar("x")
	v.Assert(accepts(jsval.EmptyConstraint, x), "the empty constraint accepts every value")
}

// atom is a JSON value that is not a container.
func atom(name string) (interface{}, int) {
	x, k := anyJSON(name)
	v.Assume(k != kArray && k != kObject)
	return x, k
}

func sameAtom(x interface{}, kx int, y interface{}, ky int) bool {
	if kx != ky {
		return false
	}
	switch kx {
	case kBool:
		return x.(bool) == y.(bool)
	case kFloat:
		return x.(float64) == y.(float64)
	case kString:
		return x.(string) == y.(string)
	}
	return true
}

func Spec_C03_enum() {
	e0, k0 := atom("e0")
	e1, k1 := atom("e1")
	x, kx := atom("x")
	var c *jsval.EnumConstraint
	n := v.Choose(3)
	switch n {
	case 0:
		c = jsval.Enum()
	case 1:
		c = jsval.Enum(e0)
	default:
		c = jsval.Enum().Enum(e0, e1)
	}
	want := n > 0 && sameAtom(x, kx, e0, k0) || n > 1 && sameAtom(x, kx, e1, k1)
	v.Assert(accepts(c, x) == want, "an enumeration accepts exactly the values it lists")
}

// An enumeration of any size: the listed value may be at any place.
func Spec_C03_enumany() {
	x, kx := atom("x")
	v.Assume(kx == kString)
	e := v.Str("e")
	other := v.Many[string]("other")
	var l []interface{}
	if v.Choose(2) == 1 {
		l = append(l, other)
	}
	has := v.Choose(2) == 1
	if has {
		l = append(l, e)
	}
	if v.Choose(2) == 1 {
		l = append(l, other)
	}
	got := accepts(jsval.Enum(l...), x)
	if has && x.(string) == e {
		v.Assert(got, "a listed value is accepted wherever it stands in the enumeration")
	}
}

func Spec_C03_validator() {
	x, _ := anyScalar("x")
	val := jsval.New().SetRoot(child{"root"})
	if v.Choose(2) == 1 {
		val.SetName(v.Str("name"))
	}
	v.Assert(accepts(val, x) == okFor("root", x), "a validator's verdict is its root constraint's verdict, whatever its name")
}

// Lists and objects in an enumeration are compared as wholes.
func Spec_C03_enumcontainers() {
	e0, k0 := atom("e0")
	e1, k1 := atom("e1")
	x0, kx0 := atom("x0")
	x1, kx1 := atom("x1")
	same0, same1 := sameAtom(x0, kx0, e0, k0), sameAtom(x1, kx1, e1, k1)
	type m = map[string]interface{}
	switch v.Choose(6) {
	case 0:
		v.Assert(accepts(jsval.Enum([]interface{}{e0, e1}), []interface{}{x0, x1}) == (same0 && same1), "a list is accepted by an enumeration exactly if it equals a listed one")
	case 1:
		v.Assert(!accepts(jsval.Enum([]interface{}{e0, e1}, e0), []interface{}{x0}), "a shorter list does not equal a longer one, nor its element")
	case 2:
		v.Assert(!accepts(jsval.Enum([]interface{}{e0}, m{"a": e0}), x0), "a value that is no container equals no container")
	case 3:
		v.Assert(accepts(jsval.Enum(m{"a": e0, "b": e1}), m{"b": x1, "a": x0}) == (same0 && same1), "an object is accepted by an enumeration exactly if it equals a listed one")
	case 4:
		v.Assert(!accepts(jsval.Enum(m{"a": e0, "b": e1}), m{"a": x0}) && !accepts(jsval.Enum(m{"a": e0}), m{"a": x0, "b": x1}), "objects with different properties are different")
	default:
		v.Assert(!accepts(jsval.Enum([]interface{}{"a b"}), []interface{}{"a", "b"}) &&
			!accepts(jsval.Enum(1.0, "1"), []interface{}{1.0}) &&
			!accepts(jsval.Enum([]interface{}{"1", nil}, "<nil>", "true", "[1]"), []interface{}{1.0, nil}) &&
			!accepts(jsval.Enum("<nil>", "[]", "map[]", 0.0, false), nil) &&
			!accepts(jsval.Enum(nil, []interface{}{}), m{}) && !accepts(jsval.Enum(nil, m{}), []interface{}{}) &&
			accepts(jsval.Enum(1.5, m{}, []interface{}{}, nil), []interface{}{}) &&
			accepts(jsval.Enum(1.5, m{"a": []interface{}{nil}}), m{"a": []interface{}{nil}}),
			"values that print alike are different, and empty containers equal themselves alone")
	}
}
