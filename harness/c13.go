package verifharness

import (
	"net"
	"net/mail"
	"net/url"
	"time"

	"github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// blank is the schema {}, as decoded from JSON.
func blank() *schema.Schema {
	s := schema.New()
	s.AdditionalItems = &schema.AdditionalItems{}
	s.AdditionalProperties = &schema.AdditionalProperties{}
	return s
}

func typed(ts ...schema.PrimitiveType) *schema.Schema {
	s := blank()
	s.Type = schema.PrimitiveTypes(ts)
	return s
}

// build builds a validator from a schema that has to be supported.
func build(s *schema.Schema) *jsval.JSVal {
	val, err := builder.New().Build(s)
	v.Assert(err == nil && val != nil, "a validator can be built from every schema made of supported keywords")
	v.Assume(err == nil && val != nil)
	return val
}

func (n numSpec) into(s *schema.Schema) *schema.Schema {
	if n.hasMin {
		s.Minimum = schema.Number{Val: n.min, Initialized: true}
	}
	if n.hasMax {
		s.Maximum = schema.Number{Val: n.max, Initialized: true}
	}
	if n.exMin {
		s.ExclusiveMinimum = schema.Bool{Val: true, Initialized: true}
	}
	if n.exMax {
		s.ExclusiveMaximum = schema.Bool{Val: true, Initialized: true}
	}
	if n.hasMul {
		s.MultipleOf = schema.Number{Val: n.mul, Initialized: true}
	}
	if n.hasEnum {
		s.Enum = n.enum
	}
	return s
}

func (t strSpec) into(s *schema.Schema) *schema.Schema {
	if t.hasMin {
		s.MinLength = schema.Integer{Val: t.min, Initialized: true}
	}
	if t.hasMax {
		s.MaxLength = schema.Integer{Val: t.max, Initialized: true}
	}
	if t.hasRx {
		s.Pattern = t.rx
	}
	if t.hasEnum {
		s.Enum = t.enum
	}
	return s
}

func Spec_C13_number() {
	n := anyNumSpec(true)
	val := build(n.into(typed(schema.NumberType)))
	x, k := anyJSON("x")
	got := accepts(val, x)
	if k != kFloat {
		v.Assert(!got, "a number schema admits only numbers")
		return
	}
	v.Assert(got == n.holds(x.(float64)), "a number schema admits exactly the numbers that satisfy its keywords")
}

func Spec_C13_integer() {
	n := anyNumSpec(true)
	val := build(n.into(typed(schema.IntegerType)))
	x, k := anyJSON("x")
	got := accepts(val, x)
	if k != kFloat {
		v.Assert(!got, "an integer schema admits only numbers")
		return
	}
	f := x.(float64)
	v.Assert(got == (v.IsInt(f) && n.holds(f)), "an integer schema admits exactly the integral numbers that satisfy its keywords")
}

// Exclusive bounds that say false are inclusive.
func Spec_C13_inclusive() {
	s := typed(schema.NumberType)
	if v.Choose(2) == 1 {
		s.Type[0] = schema.IntegerType
	}
	f := v.Float("x")
	v.Assume(v.IsInt(f))
	b := v.Float("bound")
	if v.Choose(2) == 1 {
		s.Minimum = schema.Number{Val: b, Initialized: true}
		s.ExclusiveMinimum = schema.Bool{Val: false, Initialized: true}
		v.Assert(accepts(build(s), f) == (f >= b), "a bound that is not exclusive admits the bound itself")
	} else {
		s.Maximum = schema.Number{Val: b, Initialized: true}
		s.ExclusiveMaximum = schema.Bool{Val: false, Initialized: true}
		v.Assert(accepts(build(s), f) == (f <= b), "a bound that is not exclusive admits the bound itself")
	}
}

func Spec_C13_string() {
	t := anyStrSpec()
	val := build(t.into(typed(schema.StringType)))
	x, k := anyJSON("x")
	got := accepts(val, x)
	if k != kString {
		v.Assert(!got, "a string schema admits only strings")
		return
	}
	v.Assert(got == t.holds(x.(string)), "a string schema admits exactly the strings that satisfy its keywords")
}

var formats = []schema.Format{schema.FormatDateTime, schema.FormatEmail, schema.FormatHostname, schema.FormatIPv4, schema.FormatIPv6, schema.FormatURI}

func Spec_C13_format() {
	s := blank()
	if v.Choose(2) == 1 {
		s = typed(schema.StringType)
	}
	f := formats[v.Choose(len(formats))]
	s.Format = f
	x := v.Str("x")
	var want bool
	switch f {
	case schema.FormatDateTime:
		_, err := time.Parse(time.RFC3339, x)
		want = err == nil
	case schema.FormatEmail:
		_, err := mail.ParseAddress(x)
		want = err == nil
	case schema.FormatURI:
		_, err := url.Parse(x)
		want = err == nil
	case schema.FormatIPv4:
		x = v.StrOf("a", "0123456789.")
		want = net.ParseIP(x) != nil
	case schema.FormatIPv6:
		x = v.StrOf("h", "0123456789abcdefABCDEF:") + ":" + v.StrOf("l", "0123456789abcdefABCDEF:")
		want = net.ParseIP(x) != nil
	case schema.FormatHostname:
		x, want = "host.example", true
		if v.Choose(2) == 0 {
			x, want = "", false
		}
	}
	switch v.Choose(5) {
	case 1:
		s.Pattern = v.Regexp("pattern")
		want = want && s.Pattern.MatchString(x)
	case 2:
		s.Enum = []interface{}{v.Str("e0"), "host.example"}
		want = want && (x == v.Str("e0") || x == "host.example")
	case 3:
		s.MinLength = schema.Integer{Val: 3, Initialized: true}
		want = want && runes(x) >= 3
	case 4:
		s.MaxLength = schema.Integer{Val: 5, Initialized: true}
		want = want && runes(x) <= 5
	}
	v.Assert(accepts(build(s), x) == want, "the format of a schema is enforced, together with its other keywords")
}

func Spec_C13_simple() {
	x, k := anyJSON("x")
	switch v.Choose(4) {
	case 0:
		v.Assert(accepts(build(typed(schema.BooleanType)), x) == (k == kBool), "a boolean schema admits exactly booleans")
	case 1:
		v.Assert(accepts(build(typed(schema.NullType)), x) == (k == kNull), "a null schema admits exactly null")
	case 2:
		v.Assert(accepts(build(blank()), x), "an empty schema admits everything")
	case 3:
		s := blank()
		s.Title, s.Description, s.ID, s.Default = "t", "d", "i", "x"
		v.Assert(accepts(build(s), x), "annotations restrict nothing")
	}
}

// Enumerations, of every type.
func Spec_C13_enum() {
	x, _ := anyJSON("x")
	e0, k0 := anyJSON("e0")
	e1, k1 := anyJSON("e1")
	s := blank()
	s.Enum = []interface{}{e0, e1}
	if v.Choose(2) == 1 {
		s.Type = schema.PrimitiveTypes{typeOf(k0), typeOf(k1)}
	}
	want := v.DeepEq(x, e0) || v.DeepEq(x, e1)
	v.Assert(accepts(build(s), x) == want, "an enumeration admits exactly the values it lists")
}

func typeOf(k int) schema.PrimitiveType {
	switch k {
	case kNull:
		return schema.NullType
	case kBool:
		return schema.BooleanType
	case kFloat:
		return schema.NumberType
	case kString:
		return schema.StringType
	case kArray:
		return schema.ArrayType
	}
	return schema.ObjectType
}

// Without a type, the keywords tell it.
func Spec_C13_untyped() {
	x, k := anyJSON("x")
	if v.Choose(2) == 0 {
		t := anyStrSpec()
		v.Assume(t.hasMin || t.hasMax || t.hasRx || t.hasEnum)
		got := accepts(build(t.into(blank())), x)
		v.Assert(got == (k == kString && t.holds(x.(string))), "a schema with keywords for strings and no type admits exactly the strings that satisfy them")
		return
	}
	n := anyNumSpec(true)
	v.Assume(n.hasMin || n.hasMax || n.hasMul || n.hasEnum)
	got := accepts(build(n.into(blank())), x)
	if k != kFloat {
		v.Assert(!got, "a schema with keywords for numbers and no type admits only numbers")
		return
	}
	f := x.(float64)
	v.Assert(!got || n.holds(f), "a schema with keywords for numbers and no type admits only numbers that satisfy them")
	if v.IsInt(f) {
		v.Assert(got || !n.holds(f), "a schema with keywords for numbers and no type admits the integers that satisfy them")
	}
}

// Defaults of scalar schemas.
func Spec_C13_default() {
	s := blank()
	var d interface{}
	switch v.Choose(4) {
	case 0:
		s, d = typed(schema.StringType), v.Str("d")
	case 1:
		s, d = typed(schema.NumberType), v.Float("d")
	case 2:
		s, d = typed(schema.IntegerType), v.Float("d")
	case 3:
		s, d = typed(schema.BooleanType), v.Bool("d")
	}
	has := v.Choose(2) == 1
	if has {
		s.Default = d
	}
	o := typed(schema.ObjectType)
	o.Properties = map[string]*schema.Schema{"p": s}
	m := map[string]interface{}{}
	v.Assert(accepts(build(o), m), "an object that lacks an optional property is admitted")
	got, ok := m["p"]
	v.Assert(ok == has && (!has || got == d), "the default of a schema is the value given to an absent property")
}

// Formats this package does not know restrict nothing, however much they
// resemble known ones.
func Spec_C13_otherformat() {
	s := blank()
	isTyped := v.Choose(2) == 1
	if isTyped {
		s = typed(schema.StringType)
	}
	l := []schema.Format{"IPv4", "EMAIL", "Uri", "Date-Time", "HOSTNAME", "ipV6", " ipv4", "ipv", "regex", "date_time", "ipv4 "}
	s.Format = l[v.Choose(len(l))]
	x, k := anyJSON("x")
	got := accepts(build(s), x)
	if k == kString {
		v.Assert(got, "a format that is not known restricts nothing")
	} else if isTyped {
		v.Assert(!got, "a string schema admits only strings")
	}
}
