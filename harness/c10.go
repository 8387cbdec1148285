package verifharness

import (
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// dflt is an arbitrary constraint that may have a default value.
type dflt struct {
	child
	has bool
	val interface{}
}

func (c dflt) HasDefault() bool          { return c.has }
func (c dflt) DefaultValue() interface{} { return c.val }

func anyDefault(name string) interface{} {
	switch v.Choose(6) {
	case 0:
		return v.Str(name + ".str")
	case 1:
		return v.Float(name + ".num")
	case 2:
		return v.Bool(name + ".bool")
	case 3:
		return []interface{}{v.Str(name + ".e0")}
	case 4:
		return map[string]interface{}{"k": v.Str(name + ".v0")}
	}
	return nil
}

// Two declared properties of one object.
func Spec_C10_map() {
	d0, d1 := anyDefault("d0"), v.Str("d1")
	h0, h1 := v.Choose(2) == 1, v.Choose(2) == 1
	c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
	c.AddProp("a", dflt{child{"a"}, h0, d0})
	c.AddProp("b", dflt{child{"b"}, h1, d1})
	x0, x1, x2 := v.Str("x0"), v.Str("x1"), v.Str("x2")
	m := map[string]interface{}{}
	p0, p1, p2 := v.Choose(2) == 1, v.Choose(2) == 1, v.Choose(2) == 1
	if p0 {
		m["a"] = x0
	}
	if p1 {
		m["b"] = x1
	}
	if p2 {
		m["c"] = x2
	}
	var in interface{} = m
	if v.Choose(2) == 1 {
		in = &m
	}
	if !accepts(c, in) {
		return
	}
	a, oka := m["a"]
	b, okb := m["b"]
	e, oke := m["c"]
	n := 0
	if p0 {
		v.Assert(oka && a == x0, "a property that is present keeps its value")
		n++
	} else if h0 {
		v.Assert(oka && v.DeepEq(a, d0), "an absent property with a default is set to the default")
		n++
	} else {
		v.Assert(!oka, "an absent property without a default stays absent")
	}
	if p1 {
		v.Assert(okb && b == x1, "a property that is present keeps its value")
		n++
	} else if h1 {
		v.Assert(okb && b == d1, "an absent property with a default is set to the default")
		n++
	} else {
		v.Assert(!okb, "an absent property without a default stays absent")
	}
	if p2 {
		v.Assert(oke && e == x2, "a property that is not declared keeps its value")
		n++
	} else {
		v.Assert(!oke, "nothing but defaults is added")
	}
	v.Assert(len(m) == n, "nothing but defaults is added or removed")
}

// Defaults of the constraints of this package.
func Spec_C10_kinds() {
	c := jsval.Object()
	var want interface{}
	switch v.Choose(6) {
	case 0:
		s := v.Str("s")
		want = s
		c.AddProp("a", jsval.String().Default(s))
	case 1:
		f := v.Float("f")
		want = f
		c.AddProp("a", jsval.Number().Default(f))
	case 2:
		f := v.Float("f")
		want = f
		c.AddProp("a", jsval.Integer().Default(f))
	case 3:
		b := v.Bool("b")
		want = b
		c.AddProp("a", jsval.Boolean().Default(b))
	case 4:
		s := v.Str("s")
		want = s
		cm := &jsval.ConstraintMap{}
		cm.SetReference("r", jsval.String().Default(s))
		c.AddProp("a", jsval.Reference(cm).RefersTo("r"))
	case 5:
		i := v.Int("i")
		want = i
		c.AddProp("a", jsval.Integer().Default(i))
	}
	m := map[string]interface{}{}
	v.Assert(accepts(c, m), "an object that only lacks properties with defaults is accepted")
	a, ok := m["a"]
	v.Assert(ok && a == want, "the default given to a constraint is the one applied")
}

func Spec_C10_nested() {
	d := v.Str("d")
	in := jsval.Object().AddProp("x", jsval.String().Default(d))
	c := jsval.Object().AddProp("o", in).AddProp("l", jsval.Array().Items(in)).PatternPropertiesString("^p", in).AdditionalProperties(in)
	var got map[string]interface{}
	m := map[string]interface{}{}
	got = map[string]interface{}{}
	switch v.Choose(4) {
	case 0:
		m["o"] = got
	case 1:
		m["l"] = []interface{}{got}
	case 2:
		m["p1"] = got
	case 3:
		m["other"] = got
	}
	v.Assert(accepts(c, m), "nested objects that only lack properties with defaults are accepted")
	x, ok := got["x"]
	v.Assert(ok && x == d, "defaults are applied to nested objects")
	v.Assert(len(m) == 1 && len(got) == 1, "nothing but defaults is added")
}

// A required property is missing: no default makes up for it.
func Spec_C10_required() {
	d := v.Str("d")
	c := jsval.Object().AddProp("a", jsval.String().Default(d)).Required("a")
	m := map[string]interface{}{}
	v.Assert(!accepts(c, m), "a default does not make up for a required property")
	v.Assert(len(m) == 0, "a required property is not filled in")
}

type defaulted struct {
	A int64             `json:"a"`
	S jsval.MaybeString `json:"s"`
	I jsval.MaybeInt    `json:"i"`
	F jsval.MaybeFloat  `json:"f"`
	B jsval.MaybeBool   `json:"b"`
	U jsval.MaybeUint   `json:"u"`
}

// Structs: an uninitialised Maybe field takes the default.
func Spec_C10_struct() {
	c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
	a := v.Int64("a")
	x := &defaulted{A: a}
	pre := v.Choose(2) == 1
	switch v.Choose(5) {
	case 0:
		d := v.Str("d")
		c.AddProp("s", jsval.String().Default(d))
		if pre {
			x.S.Set(v.Str("old"))
		}
		ok := accepts(c, x)
		v.Assert(ok, "a struct whose string field lacks a value is accepted")
		v.Assert(x.S.Valid() && (pre && x.S.String == v.Str("old") || !pre && x.S.String == d), "an uninitialised string field takes the default and an initialised one keeps its value")
	case 1:
		d := v.Int("d")
		c.AddProp("i", jsval.EmptyConstraint)
		c.AddProp("i", dflt{child{"i"}, true, d})
		if pre {
			x.I.Set(v.Int64("old"))
		}
		if accepts(c, x) {
			v.Assert(x.I.Valid() && (pre && x.I.Int == v.Int64("old") || !pre && x.I.Int == int64(d)), "an uninitialised integer field takes the default and an initialised one keeps its value")
		} else {
			v.Assert(pre, "an integer default fits an integer field")
		}
	case 2:
		d := v.Float("d")
		c.AddProp("f", dflt{child{"f"}, true, d})
		if pre {
			x.F.Set(v.Float("old"))
		}
		if accepts(c, x) {
			v.Assert(x.F.Valid() && (pre && x.F.Float == v.Float("old") || !pre && x.F.Float == d), "an uninitialised number field takes the default and an initialised one keeps its value")
		} else {
			v.Assert(pre, "a number default fits a number field")
		}
	case 3:
		d := v.Bool("d")
		c.AddProp("b", dflt{child{"b"}, true, d})
		if pre {
			x.B.Set(v.Bool("old"))
		}
		if accepts(c, x) {
			v.Assert(x.B.Valid() && (pre && x.B.Bool == v.Bool("old") || !pre && x.B.Bool == d), "an uninitialised boolean field takes the default and an initialised one keeps its value")
		} else {
			v.Assert(pre, "a boolean default fits a boolean field")
		}
	case 4:
		d := v.Int("d")
		v.Assume(d >= 0)
		c.AddProp("u", dflt{child{"u"}, true, d})
		if pre {
			x.U.Set(v.Uint64("old"))
		}
		if accepts(c, x) {
			v.Assert(x.U.Valid() && (pre && x.U.Uint == v.Uint64("old") || !pre && x.U.Uint == uint64(d)), "an uninitialised unsigned field takes the default and an initialised one keeps its value")
		} else {
			v.Assert(pre, "a non-negative integer default fits an unsigned field")
		}
	}
	v.Assert(x.A == a, "other fields keep their values")
}

// A default that cannot be applied is an error, never a panic.
func Spec_C10_unfit() {
	c := jsval.Object().AddProp("a", dflt{child{"a"}, true, v.Str("d")}).AdditionalProperties(jsval.EmptyConstraint)
	switch v.Choose(6) {
	case 5:
		n := jsval.Object().AddProp("a", dflt{child{"a"}, true, v.Int("n")}).AdditionalProperties(jsval.EmptyConstraint)
		m := map[string]string{}
		v.Assert(!accepts(n, m), "a numeric default for a map of strings is an error")
		v.Assert(len(m) == 0, "a default of the wrong type is not stored")
	case 0:
		var m map[string]interface{}
		v.Assert(!accepts(c, m), "a default for a nil map is an error")
	case 1:
		m := map[string]int{}
		v.Assert(!accepts(c, m), "a default of the wrong type is an error")
		v.Assert(len(m) == 0, "a default of the wrong type is not stored")
	case 2:
		x := struct {
			M jsval.MaybeString `json:"a"`
		}{}
		v.Assert(!accepts(c, x), "a default for a struct that cannot be modified is an error")
	case 3:
		x := &struct {
			B jsval.MaybeInt `json:"a"`
		}{}
		v.Assert(!accepts(c, x), "a default of the wrong type is an error")
		v.Assert(!x.B.Valid(), "a default of the wrong type is not stored")
	case 4:
		x := &struct {
			B int `json:"b"`
		}{}
		v.Assert(!accepts(c, x), "a default for a field the struct lacks is an error")
	}
}

// Validation never writes to its input otherwise.
func Spec_C10_pure() {
	inner := map[string]interface{}{"k": v.Str("k0"), "l": []interface{}{v.Float("n0"), nil}}
	list := []interface{}{v.Str("e0"), v.Float("e1"), inner}
	x := &defaulted{A: v.Int64("a")}
	x.S.Set(v.Str("s"))
	m := map[string]interface{}{"o": inner, "l": list, "s": x, "p": v.Str("p0")}
	v.Freeze("validation leaves its input alone", m, inner, list, x)
	all := []jsval.Constraint{jsval.Object().AdditionalProperties(jsval.EmptyConstraint), child{"c"}}
	var c jsval.Constraint
	switch v.Choose(7) {
	case 0:
		c = jsval.Object().AddProp("o", jsval.Object().AddProp("k", child{"k"}).AdditionalProperties(child{"x"})).AdditionalProperties(jsval.EmptyConstraint)
	case 1:
		c = jsval.Object().AddProp("l", jsval.Array().UniqueItems(true).Items(child{"i"})).AdditionalProperties(jsval.EmptyConstraint)
	case 2:
		c = jsval.Object().AddProp("l", jsval.Array().PositionalItems(all).AdditionalItems(child{"i"})).PatternPropertiesString("^p", jsval.String().MaxLength(3)).AdditionalProperties(jsval.EmptyConstraint)
	case 3:
		c = jsval.Object().Required("o").MinProperties(1).PropDependency("o", "l").SchemaDependency("l", child{"d"}).AdditionalProperties(child{"x"})
	case 4:
		c = jsval.All().Add(all[0]).Add(jsval.Any().Add(child{"y"}).Add(child{"z"})).Add(jsval.Not(child{"n"}))
	case 5:
		c = jsval.Object().AddProp("s", jsval.Object().AddProp("s", jsval.String()).AddProp("i", jsval.Integer()).AdditionalProperties(jsval.EmptyConstraint)).AdditionalProperties(jsval.EmptyConstraint)
	case 6:
		c = jsval.Enum(v.Str("v0"), v.Float("v1"))
	}
	c.Validate(m)
}

// Constraints that were given no default never fill anything in.
func Spec_C10_none() {
	var p jsval.Constraint
	switch v.Choose(16) {
	case 0:
		p = jsval.EmptyConstraint
	case 1:
		p = jsval.NullConstraint
	case 2:
		p = jsval.Not(child{"n"})
	case 3:
		p = jsval.Any().Add(jsval.String().Default(v.Str("d")))
	case 4:
		p = jsval.All().Add(child{"a"})
	case 5:
		p = jsval.OneOf().Add(child{"a"})
	case 6:
		p = jsval.Enum(v.Str("e"), nil)
	case 7:
		p = jsval.Array().Items(jsval.String().Default(v.Str("d")))
	case 8:
		p = jsval.Object().AddProp("b", jsval.String().Default(v.Str("d")))
	case 9:
		p = jsval.String().MinLength(1).Enum(v.Str("e"))
	case 10:
		p = jsval.Number().Minimum(v.Float("f"))
	case 11:
		p = jsval.Integer().Enum(v.Float("f"))
	case 12:
		p = jsval.Boolean()
	case 13:
		cm := &jsval.ConstraintMap{}
		cm.SetReference("r", jsval.String())
		p = jsval.Reference(cm).RefersTo("r")
	case 14:
		p = jsval.Reference(&jsval.ConstraintMap{}).RefersTo("r")
	case 15:
		cm := &jsval.ConstraintMap{}
		cm.SetReference("r", jsval.EmptyConstraint)
		p = jsval.Reference(cm).RefersTo("r")
	}
	c := jsval.Object().AddProp("a", p)
	m := map[string]interface{}{}
	v.Assert(accepts(c, m), "an object that lacks an optional property is accepted")
	v.Assert(len(m) == 0, "a constraint without a default fills nothing in")
	x := &struct {
		A jsval.MaybeString `json:"a"`
	}{}
	v.Assert(accepts(c, x), "a struct that lacks an optional property is accepted")
	v.Assert(!x.A.Valid(), "a constraint without a default fills no field in")
}

type inlined struct {
	S jsval.MaybeString `json:"s"`
	N int               `json:"n"`
}

type outer10 struct {
	inlined
	T jsval.MaybeString `json:"t"`
	O inner10           `json:"o"`
}

type inner10 struct {
	S jsval.MaybeString `json:"s"`
}

// Promoted fields, and structs within structs, lists and maps.
func Spec_C10_structs() {
	d := v.Str("d")
	n := v.Int("n")
	switch v.Choose(4) {
	case 0:
		x := &outer10{}
		x.N = n
		c := jsval.Object().AddProp("s", jsval.String().Default(d)).AdditionalProperties(jsval.EmptyConstraint)
		v.Assert(accepts(c, x), "a struct that only lacks a promoted field with a default is accepted")
		v.Assert(x.S.Valid() && x.S.String == d, "a promoted field takes the default")
		v.Assert(!x.T.Valid() && !x.O.S.Valid() && x.N == n, "no other field is filled in")
	case 1:
		x := &inner10{}
		c := jsval.Object().AddProp("o", jsval.Object().AddProp("s", jsval.String().Default(d)))
		v.Assert(accepts(c, map[string]interface{}{"o": x}), "a pointer to a struct within a map is accepted")
		v.Assert(x.S.Valid() && x.S.String == d, "a struct within a map takes its defaults")
	case 2:
		x, y := &inner10{}, &inner10{}
		old := v.Str("old")
		y.S.Set(old)
		c := jsval.Array().Items(jsval.Object().AddProp("s", jsval.String().Default(d)))
		v.Assert(accepts(c, []*inner10{x, y}), "a list of structs is accepted")
		v.Assert(x.S.Valid() && x.S.String == d && y.S.Valid() && y.S.String == old, "each struct in a list takes its own defaults")
	case 3:
		x := &struct {
			P *inner10 `json:"p"`
		}{&inner10{}}
		c := jsval.Object().AddProp("p", jsval.Object().AddProp("s", jsval.String().Default(d)))
		v.Assert(accepts(c, x), "a struct that holds a pointer to a struct is accepted")
		v.Assert(x.P.S.Valid() && x.P.S.String == d, "a struct pointed to takes its defaults")
	}
}

// A default given as an integer fits a field or a map of numbers.
func Spec_C10_align() {
	i := v.Int("i")
	c := jsval.Object().AddProp("f", dflt{child{"f"}, true, i})
	switch v.Choose(3) {
	case 0:
		x := &defaulted{}
		c.AdditionalProperties(jsval.EmptyConstraint)
		v.Assert(accepts(c, x), "an integer default fits a number field")
		v.Assert(x.F.Valid() && x.F.Float == float64(i), "an integer default is stored as a number")
	case 1:
		m := map[string]float64{}
		v.Assert(accepts(c, m), "an integer default fits a map of numbers")
		f, ok := m["f"]
		v.Assert(ok && len(m) == 1 && f == float64(i), "an integer default is stored as a number")
	case 2:
		m := map[string]int64{}
		v.Assert(accepts(c, m), "an integer default fits a map of integers")
		f, ok := m["f"]
		v.Assert(ok && len(m) == 1 && f == int64(i), "an integer default is stored as it is")
	}
}

// record keeps its properties to itself.
type record struct{ props map[string]interface{} }

type noProp struct{}

func (noProp) Error() string { return "no such property" }

func (r record) GetPropNames() ([]string, error) {
	var l []string
	for k := range r.props {
		l = append(l, k)
	}
	return l, nil
}

func (r record) GetPropValue(name string) (interface{}, error) {
	if x, ok := r.props[name]; ok {
		return x, nil
	}
	return nil, noProp{}
}

func (r record) SetPropValue(name string, x interface{}) error {
	if r.props == nil {
		return noProp{}
	}
	r.props[name] = x
	return nil
}

// A struct with accessors is given its defaults through them.
func Spec_C10_accessors() {
	d := v.Str("d")
	c := jsval.Object().AddProp("a", jsval.String().Default(d)).AdditionalProperties(jsval.EmptyConstraint)
	var in interface{}
	r := record{map[string]interface{}{"b": v.Str("b")}}
	if v.Choose(2) == 1 {
		in = r
	} else {
		in = &r
	}
	if v.Choose(2) == 1 {
		r.props["a"] = v.Str("old")
		d = v.Str("old")
	}
	v.Assert(accepts(c, in), "a struct with accessors that only lacks a property with a default is accepted")
	x, ok := r.props["a"]
	v.Assert(ok && x == d && len(r.props) == 2, "the default is set through SetPropValue, and only where the property is absent")
	v.Assert(!accepts(c, record{}), "a default that SetPropValue refuses is an error")
}

// A property that is there is not absent, whatever its value.
func Spec_C10_present() {
	var old interface{}
	switch v.Choose(6) {
	case 0:
		old = nil
	case 1:
		old = ""
	case 2:
		old = 0.0
	case 3:
		old = false
	case 4:
		old = []interface{}{}
	case 5:
		old = map[string]interface{}{}
	}
	c := jsval.Object().AddProp("a", dflt{child{"a"}, true, v.Str("d")})
	m := map[string]interface{}{"a": old}
	got := accepts(c, m)
	v.Assert(got == okFor("a", old), "a property that is present is judged by its own value, not by the default")
	a, ok := m["a"]
	v.Assert(ok && len(m) == 1 && v.DeepEq(a, old), "a property that is present keeps its value, even null or empty")
}
