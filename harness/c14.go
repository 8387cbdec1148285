package verifharness

import (
	"regexp"

	"github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval/builder"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// sub is a schema that admits an arbitrary set of strings.
func sub(name string) *schema.Schema {
	s := typed(schema.StringType)
	s.Pattern = v.Regexp(name)
	return s
}

// inSub is the verdict of sub on a string.
func inSub(name, x string) bool { return v.Regexp(name).MatchString(x) }

// Several types.
func Spec_C14_types() {
	all := []schema.PrimitiveType{schema.NullType, schema.BooleanType, schema.NumberType, schema.StringType, schema.ArrayType, schema.ObjectType}
	k0, k1 := v.Choose(nJSON), v.Choose(nJSON)
	s := typed(all[k0], all[k1])
	x, k := anyJSON("x")
	v.Assert(accepts(build(s), x) == (k == k0 || k == k1), "a value is admitted exactly if it has one of the types listed")
	v.Assert(s.Type[0] == all[k0] && s.Type[1] == all[k1], "the list of types stays as it is")
}

func Spec_C14_typeargs() {
	// Each keyword applies to the values of its type.
	s := typed(schema.StringType, schema.IntegerType)
	s.Pattern = v.Regexp("p")
	s.Minimum = schema.Number{Val: v.Float("min"), Initialized: true}
	val := build(s)
	x, k := anyJSON("x")
	var want bool
	switch k {
	case kString:
		want = inSub("p", x.(string))
	case kFloat:
		f := x.(float64)
		want = v.IsInt(f) && f >= v.Float("min")
	}
	v.Assert(accepts(val, x) == want, "with several types, each keyword restricts the values of its own type")
}

// Combinations, alone and together with each other and with a type.
func Spec_C14_combinations() {
	s := blank()
	x := v.Str("x")
	want := true
	if v.Choose(2) == 1 {
		s.Not = sub("n")
		want = want && !inSub("n", x)
	}
	if v.Choose(2) == 1 {
		s.AllOf = schema.SchemaList{sub("l0"), sub("l1")}
		want = want && inSub("l0", x) && inSub("l1", x)
	}
	if v.Choose(2) == 1 {
		s.AnyOf = schema.SchemaList{sub("y0"), sub("y1")}
		want = want && (inSub("y0", x) || inSub("y1", x))
	}
	if v.Choose(2) == 1 {
		s.OneOf = schema.SchemaList{sub("o0"), sub("o1")}
		want = want && inSub("o0", x) != inSub("o1", x)
	}
	if v.Choose(2) == 1 {
		s.Type = schema.PrimitiveTypes{schema.StringType}
		s.Pattern = v.Regexp("t")
		want = want && inSub("t", x)
	}
	v.Assert(accepts(build(s), x) == want, "a value is admitted exactly if it satisfies every combination and keyword of the schema")
}

func Spec_C14_single() {
	s := blank()
	x, k := anyJSON("x")
	in := k == kString && inSub("c", asString(x))
	switch v.Choose(4) {
	case 0:
		s.Not = sub("c")
		in = !in
	case 1:
		s.AllOf = schema.SchemaList{sub("c")}
	case 2:
		s.AnyOf = schema.SchemaList{sub("c")}
	case 3:
		s.OneOf = schema.SchemaList{sub("c")}
	}
	v.Assert(accepts(build(s), x) == in, "a combination of one schema is that schema, and not is its opposite")
}

func asString(x interface{}) string {
	s, _ := x.(string)
	return s
}

// Three members.
func Spec_C14_three() {
	s := blank()
	x := v.Str("x")
	a, b, c := inSub("a", x), inSub("b", x), inSub("c", x)
	l := schema.SchemaList{sub("a"), sub("b"), sub("c")}
	var want bool
	switch v.Choose(3) {
	case 0:
		s.AllOf = l
		want = a && b && c
	case 1:
		s.AnyOf = l
		want = a || b || c
	case 2:
		s.OneOf = l
		want = a && !b && !c || !a && b && !c || !a && !b && c
	}
	v.Assert(accepts(build(s), x) == want, "combinations take every member into account")
}

// Arrays.
func Spec_C14_items() {
	s := arraySchema()
	n := v.Choose(4)
	xs := []string{v.Str("x0"), v.Str("x1"), v.Str("x2")}
	l := []interface{}{}
	for i := 0; i < n; i++ {
		l = append(l, xs[i])
	}
	want := true
	switch v.Choose(3) {
	case 0:
		s.Items = &schema.ItemSpec{Schemas: schema.SchemaList{sub("i")}}
		for i := 0; i < n; i++ {
			want = want && inSub("i", xs[i])
		}
	case 1, 2:
		s.Items = &schema.ItemSpec{TupleMode: true, Schemas: schema.SchemaList{sub("t0"), sub("t1")}}
		if n > 0 {
			want = want && inSub("t0", xs[0])
		}
		if n > 1 {
			want = want && inSub("t1", xs[1])
		}
		switch v.Choose(3) {
		case 0: // {} or true
		case 1:
			s.AdditionalItems = nil
			want = want && n <= 2
		case 2:
			s.AdditionalItems = &schema.AdditionalItems{Schema: sub("a")}
			want = want && (n <= 2 || inSub("a", xs[2]))
		}
	}
	v.Assert(accepts(build(s), l) == want, "every item satisfies the schema for its position")
}

// arraySchema is a schema for arrays, whether it says so or not.
func arraySchema() *schema.Schema {
	s := blank()
	if v.Choose(2) == 1 {
		s.Type = schema.PrimitiveTypes{schema.ArrayType}
	}
	return s
}

func Spec_C14_counts() {
	s := arraySchema()
	b := v.Int("bound")
	v.Assume(b >= 0)
	n := v.Choose(3)
	l := []interface{}{}
	for i := 0; i < n; i++ {
		l = append(l, v.Str("x"+string(rune('0'+i))))
	}
	var want bool
	switch v.Choose(5) {
	case 0:
		s.MinItems = schema.Integer{Val: b, Initialized: true}
		want = n >= b
	case 1:
		s.MaxItems = schema.Integer{Val: b, Initialized: true}
		want = n <= b
	case 2:
		s.UniqueItems = schema.Bool{Val: true, Initialized: true}
		want = n < 2 || v.Str("x0") != v.Str("x1")
	case 3:
		s.UniqueItems = schema.Bool{Val: false, Initialized: true}
		want = true
	case 4:
		s.MinItems = schema.Integer{Val: b, Initialized: true}
		c := v.Int("bound2")
		v.Assume(c >= 0)
		s.MaxItems = schema.Integer{Val: c, Initialized: true}
		want = n >= b && n <= c
	}
	v.Assert(accepts(build(s), l) == want, "minItems, maxItems and uniqueItems of a schema are enforced")
	x, k := anyJSON("y")
	if k != kArray {
		v.Assert(!accepts(build(s), x), "a schema for arrays admits only arrays")
	}
}

// Objects.
func objectSchema() *schema.Schema {
	s := blank()
	if v.Choose(2) == 1 {
		s.Type = schema.PrimitiveTypes{schema.ObjectType}
	}
	return s
}

func Spec_C14_properties() {
	s := objectSchema()
	declared, matched := v.Choose(2) == 1, v.Choose(2) == 1
	extra := v.Choose(3)
	if declared {
		s.Properties = map[string]*schema.Schema{"p": sub("p"), "q": sub("q")}
	}
	if matched {
		s.PatternProperties = map[*regexp.Regexp]*schema.Schema{v.Regexp("rx"): sub("m")}
	}
	switch extra {
	case 0:
	case 1:
		s.AdditionalProperties = nil
	case 2:
		s.AdditionalProperties = &schema.AdditionalProperties{Schema: sub("e")}
	}
	name := v.Str("name")
	x := v.Str("x")
	v.Assume(declared || matched || extra != 0)
	var want bool
	switch {
	case declared && name == "p":
		want = inSub("p", x)
	case declared && name == "q":
		want = inSub("q", x)
	case matched && v.Regexp("rx").MatchString(name):
		want = inSub("m", x)
	case extra == 0:
		want = true
	case extra == 1:
		want = false
	case extra == 2:
		want = inSub("e", x)
	}
	v.Assert(accepts(build(s), map[string]interface{}{name: x}) == want, "every property satisfies the schema for its name")
}

func Spec_C14_required() {
	s := objectSchema()
	m := map[string]interface{}{}
	b := v.Int("bound")
	v.Assume(b >= 0)
	pa, pb := v.Choose(2) == 1, v.Choose(2) == 1
	n := 0
	if pa {
		m["a"] = v.Str("x")
		n++
	}
	if pb {
		m["b"] = v.Str("y")
		n++
	}
	if v.Choose(2) == 1 {
		s.Properties = map[string]*schema.Schema{"a": blank(), "b": blank()}
	}
	var want bool
	switch v.Choose(6) {
	case 0:
		s.Required = []string{"a", "b"}
		want = pa && pb
	case 1:
		s.MinProperties = schema.Integer{Val: b, Initialized: true}
		want = n >= b
	case 2:
		s.MaxProperties = schema.Integer{Val: b, Initialized: true}
		want = n <= b
	case 3:
		s.Dependencies.Names = map[string][]string{"a": {"b"}}
		want = !pa || pb
	case 4:
		dep := typed(schema.ObjectType)
		dep.Required = []string{"b"}
		s.Dependencies.Schemas = map[string]*schema.Schema{"a": dep}
		want = !pa || pb
	case 5:
		s.MinProperties = schema.Integer{Val: b, Initialized: true}
		c := v.Int("bound2")
		v.Assume(c >= 0)
		s.MaxProperties = schema.Integer{Val: c, Initialized: true}
		want = n >= b && n <= c
	}
	v.Assert(accepts(build(s), m) == want, "required, minProperties, maxProperties and dependencies of a schema are enforced")
	x, k := anyJSON("z")
	if k != kObject {
		v.Assume(len(s.Type) > 0 || len(s.Required) > 0 || s.MinProperties.Initialized || s.MaxProperties.Initialized)
		v.Assert(!accepts(build(s), x), "a schema for objects admits only objects")
	}
}

// Schemas inside of schemas.
func Spec_C14_nested() {
	x := v.Str("x")
	o := typed(schema.ObjectType)
	o.Properties = map[string]*schema.Schema{"k": sub("c")}
	a := typed(schema.ArrayType)
	a.Items = &schema.ItemSpec{Schemas: schema.SchemaList{o}}
	r := blank()
	r.AnyOf = schema.SchemaList{a, sub("d")}
	doc := []interface{}{map[string]interface{}{"k": x}}
	if v.Choose(2) == 0 {
		v.Assert(accepts(build(r), doc) == inSub("c", x), "schemas inside of schemas are enforced")
	} else {
		v.Assert(accepts(build(r), x) == inSub("d", x), "schemas inside of schemas are enforced")
	}
}

// A type nobody knows makes building fail, wherever it is.
func Spec_C14_unknown() {
	bad := typed(schema.PrimitiveType(99))
	s := blank()
	switch v.Choose(15) {
	case 0:
		s = bad
	case 1:
		s.Not = bad
	case 2:
		s.AllOf = schema.SchemaList{sub("a"), bad}
	case 3:
		s.AnyOf = schema.SchemaList{bad, sub("a")}
	case 4:
		s.OneOf = schema.SchemaList{sub("a"), bad}
	case 5:
		s.Items = &schema.ItemSpec{Schemas: schema.SchemaList{bad}}
	case 6:
		s.Items = &schema.ItemSpec{TupleMode: true, Schemas: schema.SchemaList{sub("a"), bad}}
	case 7:
		s.Items = &schema.ItemSpec{TupleMode: true, Schemas: schema.SchemaList{sub("a")}}
		s.AdditionalItems = &schema.AdditionalItems{Schema: bad}
	case 8:
		s.Properties = map[string]*schema.Schema{"a": sub("a"), "b": bad}
	case 9:
		s.PatternProperties = map[*regexp.Regexp]*schema.Schema{v.Regexp("r"): bad}
	case 10:
		s.AdditionalProperties = &schema.AdditionalProperties{Schema: bad}
	case 11:
		s.Dependencies.Schemas = map[string]*schema.Schema{"a": bad}
	case 12:
		s.Type = schema.PrimitiveTypes{schema.StringType, schema.PrimitiveType(99)}
	case 13:
		s = nil
	case 14:
		s.Type = schema.PrimitiveTypes{schema.UnspecifiedType}
	}
	val, err := builder.New().Build(s)
	v.Assert(err != nil && val == nil, "building fails if any part of the schema cannot be supported")
}

func Spec_C14_dependencies() {
	s := typed(schema.ObjectType)
	m := map[string]interface{}{"a": 1.0}
	pb, pc, pd := v.Choose(2) == 1, v.Choose(2) == 1, v.Choose(2) == 1
	if pb {
		m["b"] = 1.0
	}
	if pc {
		m["c"] = 1.0
	}
	if pd {
		m["d"] = 1.0
	}
	var want bool
	switch v.Choose(4) {
	case 0:
		s.Dependencies.Names = map[string][]string{"a": {"b", "c"}}
		want = pb && pc
	case 1:
		s.Dependencies.Names = map[string][]string{"d": {"b"}, "b": {"c"}}
		want = (!pd || pb) && (!pb || pc)
	case 2:
		d0, d1 := typed(schema.ObjectType), typed(schema.ObjectType)
		d0.Required, d1.Required = []string{"b"}, []string{"c"}
		s.Dependencies.Schemas = map[string]*schema.Schema{"a": d0, "d": d1}
		want = pb && (!pd || pc)
	case 3:
		s.Required = []string{"b", "c", "d"}
		want = pb && pc && pd
	}
	v.Assert(accepts(build(s), m) == want, "every one of several dependencies and required properties is enforced")
}

func Spec_C14_patterns() {
	s := typed(schema.ObjectType)
	s.PatternProperties = map[*regexp.Regexp]*schema.Schema{v.Regexp("r0"): sub("m0"), v.Regexp("r1"): sub("m1")}
	name, x := v.Str("name"), v.Str("x")
	h0, h1 := v.Regexp("r0").MatchString(name), v.Regexp("r1").MatchString(name)
	want := (!h0 || inSub("m0", x)) && (!h1 || inSub("m1", x))
	v.Assert(accepts(build(s), map[string]interface{}{name: x}) == want, "every one of several patterns is enforced")
}

// shape is a schema of some form that admits an arbitrary set of strings.
func shape(s *schema.Schema, name string) *schema.Schema {
	switch v.Choose(6) {
	case 0:
		return sub(name)
	case 1:
		t := blank()
		t.Pattern = v.Regexp(name)
		return t
	case 2:
		t := blank()
		t.AllOf = schema.SchemaList{sub(name)}
		return t
	case 3:
		t := blank()
		t.Not = blank()
		t.Not.Not = sub(name)
		return t
	case 4:
		s.Definitions = map[string]*schema.Schema{"d": sub(name)}
		return ref("#/definitions/d")
	}
	t := blank()
	t.Enum = []interface{}{v.Str(name + ".e"), 1.0}
	v.Assume(inSub(name, v.Str("x")) == (v.Str("x") == v.Str(name+".e")))
	return t
}

// A schema of any form in every place of a schema.
func Spec_C14_shapes() {
	s := blank()
	x := v.Str("x")
	t := shape(s, "t")
	want := inSub("t", x)
	var doc interface{} = x
	switch v.Choose(13) {
	case 0:
		s.Items = &schema.ItemSpec{TupleMode: true, Schemas: schema.SchemaList{t, typed(schema.NumberType)}}
		doc = []interface{}{x, 1.0}
	case 1:
		s.Items = &schema.ItemSpec{TupleMode: true, Schemas: schema.SchemaList{typed(schema.NumberType), t}}
		doc = []interface{}{1.0, x, nil}
	case 2:
		s.Items = &schema.ItemSpec{TupleMode: true, Schemas: schema.SchemaList{typed(schema.NumberType)}}
		s.AdditionalItems = &schema.AdditionalItems{Schema: t}
		doc = []interface{}{1.0, x}
	case 3:
		s.Items = &schema.ItemSpec{Schemas: schema.SchemaList{t}}
		doc = []interface{}{x}
	case 4:
		s.Properties = map[string]*schema.Schema{"p": t, "q": typed(schema.NumberType)}
		doc = map[string]interface{}{"p": x, "q": 1.0}
	case 5:
		s.PatternProperties = map[*regexp.Regexp]*schema.Schema{v.Regexp("rx"): t}
		v.Assume(v.Regexp("rx").MatchString("p"))
		doc = map[string]interface{}{"p": x}
	case 6:
		s.AdditionalProperties = &schema.AdditionalProperties{Schema: t}
		s.Properties = map[string]*schema.Schema{"q": typed(schema.NumberType)}
		doc = map[string]interface{}{"p": x, "q": 1.0}
	case 7:
		s.Not = t
		want = !want
	case 8:
		s.AnyOf = schema.SchemaList{typed(schema.NumberType), t}
	case 9:
		s.OneOf = schema.SchemaList{t, typed(schema.NumberType)}
	case 10:
		s.AllOf = schema.SchemaList{t, typed(schema.StringType)}
	case 11:
		s.OneOf = schema.SchemaList{t, t}
		want = false
	case 12:
		s.AllOf = schema.SchemaList{t, t}
	}
	v.Assert(accepts(build(s), doc) == want, "a schema of any form is enforced in every place of a schema")
}
