package verifharness

import (
	"net/mail"
	"strings"

	"github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// admits is the meaning of a schema, read off it directly: what the keywords
// say about a decoded JSON value.
func admits(s, root *schema.Schema, x interface{}) bool {
	if to := s.Reference; to != "" {
		if to == "#" {
			return admits(root, root, x)
		}
		return admits(root.Definitions[strings.TrimPrefix(to, "#/definitions/")], root, x)
	}
	if s.Not != nil && admits(s.Not, root, x) {
		return false
	}
	for _, m := range s.AllOf {
		if !admits(m, root, x) {
			return false
		}
	}
	if len(s.AnyOf) > 0 {
		some := false
		for _, m := range s.AnyOf {
			some = some || admits(m, root, x)
		}
		if !some {
			return false
		}
	}
	if len(s.OneOf) > 0 {
		n := 0
		for _, m := range s.OneOf {
			if admits(m, root, x) {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	if len(s.Enum) > 0 {
		listed := false
		for _, e := range s.Enum {
			listed = listed || v.DeepEq(x, e)
		}
		if !listed {
			return false
		}
	}
	k := kindOf(x)
	if !typeAllows(s, x, k) {
		return false
	}
	switch k {
	case kString:
		return stringKeywords(s, x.(string))
	case kFloat:
		return numberKeywords(s, x.(float64))
	case kArray:
		return arrayKeywords(s, root, x.([]interface{}))
	case kObject:
		return objectKeywords(s, root, x.(map[string]interface{}))
	}
	return true
}

func kindOf(x interface{}) int {
	switch x.(type) {
	case nil:
		return kNull
	case bool:
		return kBool
	case float64:
		return kFloat
	case string:
		return kString
	case []interface{}:
		return kArray
	}
	return kObject
}

func typeAllows(s *schema.Schema, x interface{}, k int) bool {
	if len(s.Type) > 0 {
		for _, t := range s.Type {
			if t == schema.IntegerType {
				if k == kFloat && v.IsInt(x.(float64)) {
					return true
				}
			} else if t == typeOf(k) {
				return true
			}
		}
		return false
	}
	// The keywords, and the values listed, tell what the schema is about.
	any, null := false, false
	for _, e := range s.Enum {
		ek := kindOf(e)
		if ek == kNull {
			null = true
			continue
		}
		if ek == k {
			return true
		}
		any = true
	}
	if s.MinLength.Initialized || s.MaxLength.Initialized || s.Pattern != nil || s.Format != "" {
		if k == kString {
			return true
		}
		any = true
	}
	if s.Minimum.Initialized || s.Maximum.Initialized || s.MultipleOf.Initialized {
		if k == kFloat {
			return true
		}
		any = true
	}
	if s.Items != nil || s.AdditionalItems == nil || s.AdditionalItems.Schema != nil || s.MinItems.Initialized || s.MaxItems.Initialized || s.UniqueItems.Initialized {
		if k == kArray {
			return true
		}
		any = true
	}
	if len(s.Properties) > 0 || len(s.PatternProperties) > 0 || s.AdditionalProperties == nil || s.AdditionalProperties.Schema != nil || s.MinProperties.Initialized || s.MaxProperties.Initialized || len(s.Required) > 0 || len(s.Dependencies.Names) > 0 || len(s.Dependencies.Schemas) > 0 {
		if k == kObject {
			return true
		}
		any = true
	}
	return !any || k == kNull && null
}

func stringKeywords(s *schema.Schema, x string) bool {
	if s.MinLength.Initialized && runes(x) < s.MinLength.Val {
		return false
	}
	if s.MaxLength.Initialized && runes(x) > s.MaxLength.Val {
		return false
	}
	if s.Pattern != nil && !s.Pattern.MatchString(x) {
		return false
	}
	if s.Format == schema.FormatEmail {
		if _, err := mail.ParseAddress(x); err != nil {
			return false
		}
	}
	return true
}

func numberKeywords(s *schema.Schema, x float64) bool {
	if s.Minimum.Initialized {
		if s.ExclusiveMinimum.Val && x <= s.Minimum.Val || x < s.Minimum.Val {
			return false
		}
	}
	if s.Maximum.Initialized {
		if s.ExclusiveMaximum.Val && x >= s.Maximum.Val || x > s.Maximum.Val {
			return false
		}
	}
	return !s.MultipleOf.Initialized || v.Divisible(x, s.MultipleOf.Val)
}

func arrayKeywords(s, root *schema.Schema, x []interface{}) bool {
	if s.MinItems.Initialized && len(x) < s.MinItems.Val {
		return false
	}
	if s.MaxItems.Initialized && len(x) > s.MaxItems.Val {
		return false
	}
	if s.UniqueItems.Val {
		for i := range x {
			for j := 0; j < i; j++ {
				if v.DeepEq(x[i], x[j]) {
					return false
				}
			}
		}
	}
	if s.Items == nil {
		return true
	}
	for i, e := range x {
		switch {
		case !s.Items.TupleMode:
			if !admits(s.Items.Schemas[0], root, e) {
				return false
			}
		case i < len(s.Items.Schemas):
			if !admits(s.Items.Schemas[i], root, e) {
				return false
			}
		case s.AdditionalItems == nil:
			return false
		case s.AdditionalItems.Schema != nil:
			if !admits(s.AdditionalItems.Schema, root, e) {
				return false
			}
		}
	}
	return true
}

func objectKeywords(s, root *schema.Schema, x map[string]interface{}) bool {
	if s.MinProperties.Initialized && len(x) < s.MinProperties.Val {
		return false
	}
	if s.MaxProperties.Initialized && len(x) > s.MaxProperties.Val {
		return false
	}
	for _, name := range s.Required {
		if _, ok := x[name]; !ok {
			return false
		}
	}
	for name, e := range x {
		if p, ok := s.Properties[name]; ok {
			if !admits(p, root, e) {
				return false
			}
			continue
		}
		matched := false
		for re, p := range s.PatternProperties {
			if re.MatchString(name) {
				matched = true
				if !admits(p, root, e) {
					return false
				}
			}
		}
		if matched {
			continue
		}
		if s.AdditionalProperties == nil {
			return false
		}
		if p := s.AdditionalProperties.Schema; p != nil && !admits(p, root, e) {
			return false
		}
	}
	for from, to := range s.Dependencies.Names {
		if _, ok := x[from]; !ok {
			continue
		}
		for _, name := range to {
			if _, ok := x[name]; !ok {
				return false
			}
		}
	}
	for from, dep := range s.Dependencies.Schemas {
		if _, ok := x[from]; ok && !admits(dep, root, x) {
			return false
		}
	}
	return true
}

func count(n int) schema.Integer { return schema.Integer{Val: n, Initialized: true} }

func bound(name string) schema.Integer {
	n := v.Int(name)
	v.Assume(n >= 0)
	return count(n)
}

// annotate gives a schema what restricts nothing.
func annotate(s *schema.Schema) {
	s.Title, s.Description, s.ID = v.Str("title"), v.Str("description"), v.Str("id")
}

// two adds two of n features to a schema, or one.
func two(n int, s *schema.Schema, feature func(*schema.Schema, int)) {
	i := v.Choose(n)
	j := i + v.Choose(n-i)
	feature(s, i)
	if j != i {
		feature(s, j)
	}
}

func arrayFeature(s *schema.Schema, k int) {
	switch k {
	case 0:
		s.MinItems = bound("minItems")
	case 1:
		s.MaxItems = bound("maxItems")
	case 2:
		s.UniqueItems = schema.Bool{Val: true, Initialized: true}
	case 3:
		s.Items = &schema.ItemSpec{Schemas: schema.SchemaList{sub("i")}}
	case 4:
		s.Items = &schema.ItemSpec{TupleMode: true, Schemas: schema.SchemaList{sub("t0"), sub("t1")}}
	case 5:
		s.Items = &schema.ItemSpec{TupleMode: true, Schemas: schema.SchemaList{sub("t0"), sub("t1")}}
		s.AdditionalItems = nil
	case 6:
		s.Items = &schema.ItemSpec{TupleMode: true, Schemas: schema.SchemaList{sub("t0")}}
		s.AdditionalItems = &schema.AdditionalItems{Schema: sub("a")}
	case 7:
		s.Enum = []interface{}{[]interface{}{v.Str("e0")}, []interface{}{}, []interface{}{"u", "v"}}
	case 8:
		s.Default = []interface{}{}
	case 9:
		annotate(s)
	case 10:
		s.Not = typed(schema.ArrayType)
		s.Not.MaxItems = count(1)
	case 11:
		s.AllOf = schema.SchemaList{typed(schema.ArrayType), typed(schema.ArrayType)}
		s.AllOf[1].MinItems = count(1)
	case 12:
		s.AnyOf = schema.SchemaList{typed(schema.NullType), typed(schema.ArrayType)}
		s.AnyOf[1].UniqueItems = schema.Bool{Val: true, Initialized: true}
	case 13:
		s.OneOf = schema.SchemaList{typed(schema.ArrayType), typed(schema.ArrayType)}
		s.OneOf[1].MinItems = count(2)
	case 14:
		s.Definitions = map[string]*schema.Schema{"d": sub("d")}
		s.Items = &schema.ItemSpec{Schemas: schema.SchemaList{ref("#/definitions/d")}}
	}
}

// Any two keywords of an array schema together.
func Spec_C14_pairsArray() {
	s := blank()
	switch v.Choose(4) {
	case 1:
		s.Type = schema.PrimitiveTypes{schema.ArrayType}
	case 2:
		s.Type = schema.PrimitiveTypes{schema.ArrayType, schema.NullType}
	case 3:
		s.Type = schema.PrimitiveTypes{schema.StringType, schema.ArrayType}
	}
	two(15, s, arrayFeature)
	val := build(s)
	var x interface{}
	switch v.Choose(6) {
	case 0:
	case 1:
		x = "s"
	case 2:
		x = []interface{}{}
	case 3:
		x = []interface{}{v.Str("x0")}
	case 4:
		x = []interface{}{v.Str("x0"), v.Str("x1")}
	case 5:
		x = []interface{}{v.Str("x0"), v.Str("x1"), v.Str("x2")}
	}
	v.Assert(accepts(val, x) == admits(s, s, x), "any two keywords for arrays are enforced together")
}

func objectFeature(s *schema.Schema, k int) {
	switch k {
	case 0:
		s.MinProperties = bound("minProperties")
	case 1:
		s.MaxProperties = bound("maxProperties")
	case 2:
		s.Required = []string{"p", "a"}
	case 3:
		s.Required = []string{"b"}
	case 4:
		s.Properties = map[string]*schema.Schema{"p": sub("p"), "q": sub("q")}
	case 5:
		s.PatternProperties = map[*rx]*schema.Schema{v.Regexp("rx"): sub("m")}
	case 6:
		s.AdditionalProperties = nil
	case 7:
		s.AdditionalProperties = &schema.AdditionalProperties{Schema: sub("e")}
	case 8:
		s.Dependencies.Names = map[string][]string{"a": {"b"}}
	case 9:
		s.Dependencies.Schemas = map[string]*schema.Schema{"p": typed(schema.ObjectType)}
		s.Dependencies.Schemas["p"].Required = []string{"a"}
	case 10:
		s.Enum = []interface{}{map[string]interface{}{"a": v.Str("e")}, map[string]interface{}{}}
	case 11:
		s.Default = map[string]interface{}{}
	case 12:
		annotate(s)
	case 13:
		s.Not = typed(schema.ObjectType)
		s.Not.Required = []string{"a"}
	case 14:
		s.AllOf = schema.SchemaList{typed(schema.ObjectType), typed(schema.ObjectType)}
		s.AllOf[1].MinProperties = count(1)
	case 15:
		s.AnyOf = schema.SchemaList{typed(schema.NullType), typed(schema.ObjectType)}
		s.AnyOf[1].Properties = map[string]*schema.Schema{"p": sub("y")}
	case 16:
		s.OneOf = schema.SchemaList{typed(schema.ObjectType), typed(schema.ObjectType)}
		s.OneOf[1].Required = []string{"p"}
	}
}

// Any two keywords of an object schema together.
func Spec_C14_pairsObject() { objectPairs(blank()) }

func Spec_C14_pairsObjectTyped() { objectPairs(typed(schema.ObjectType)) }

func Spec_C14_pairsObjectNull() { objectPairs(typed(schema.NullType, schema.ObjectType)) }

func objectPairs(s *schema.Schema) {
	two(17, s, objectFeature)
	val := build(s)
	var x interface{}
	switch v.Choose(7) {
	case 0:
	case 1:
		x = "s"
	case 2:
		x = map[string]interface{}{}
	case 3:
		x = map[string]interface{}{v.Str("name"): v.Str("x")}
	case 4:
		x = map[string]interface{}{"p": v.Str("x"), "a": v.Str("y")}
	case 5:
		x = map[string]interface{}{"p": v.Str("x"), "b": v.Str("y")}
	case 6:
		x = map[string]interface{}{"a": v.Str("x"), "b": v.Str("y"), "q": 1.0}
	}
	v.Assert(accepts(val, x) == admits(s, s, x), "any two keywords for objects are enforced together")
}

func scalarFeature(s *schema.Schema, k int) {
	switch k {
	case 0:
		s.MinLength = bound("minLength")
	case 1:
		s.MaxLength = bound("maxLength")
	case 2:
		s.Pattern = v.Regexp("pattern")
	case 3:
		s.Format = schema.FormatEmail
	case 4:
		s.Minimum = schema.Number{Val: v.Float("min"), Initialized: true}
	case 5:
		s.Maximum = schema.Number{Val: v.Float("max"), Initialized: true}
	case 6:
		s.Minimum = schema.Number{Val: v.Float("min"), Initialized: true}
		s.ExclusiveMinimum = schema.Bool{Val: true, Initialized: true}
	case 7:
		s.Maximum = schema.Number{Val: v.Float("max"), Initialized: true}
		s.ExclusiveMaximum = schema.Bool{Val: true, Initialized: true}
	case 8:
		m := v.Float("mul")
		v.Assume(m > 0)
		s.MultipleOf = schema.Number{Val: m, Initialized: true}
	case 9:
		s.Enum = []interface{}{v.Str("e0"), v.Float("e1")}
	case 10:
		s.Enum = []interface{}{nil, v.Float("e1")}
	case 11:
		s.Enum = []interface{}{nil}
	case 12:
		s.Enum = []interface{}{true, v.Str("e0")}
	case 13:
		s.Default = v.Str("default")
	case 14:
		s.Default = v.Float("default")
	case 15:
		annotate(s)
	case 16:
		s.Default = v.Bool("default")
	}
}

var scalarTypes = []schema.PrimitiveTypes{
	nil,
	{schema.StringType},
	{schema.NumberType},
	{schema.IntegerType},
	{schema.StringType, schema.NumberType},
	{schema.NullType, schema.IntegerType},
	{schema.BooleanType, schema.StringType},
	{schema.IntegerType, schema.StringType, schema.NullType},
	{schema.BooleanType},
	{schema.NullType},
}

// Any two keywords of a schema for scalars together.
func Spec_C13_pairs() { scalarPairs(scalarTypes[v.Choose(4)]) }

func Spec_C13_pairsTypes() { scalarPairs(scalarTypes[4+v.Choose(len(scalarTypes)-4)]) }

func scalarPairs(ts schema.PrimitiveTypes) {
	s := blank()
	s.Type = ts
	two(17, s, scalarFeature)
	val := build(s)
	x, k := anyJSON("x")
	if k == kFloat && len(s.Type) == 0 {
		v.Assume(v.IsInt(x.(float64)))
	}
	v.Assert(accepts(val, x) == admits(s, s, x), "any two keywords are enforced together")
}

func comboFeature(s *schema.Schema, k int) {
	switch k {
	case 0:
		s.Not = sub("n")
	case 1:
		s.AllOf = schema.SchemaList{sub("l0"), sub("l1")}
	case 2:
		s.AnyOf = schema.SchemaList{sub("y0"), typed(schema.NullType)}
	case 3:
		s.OneOf = schema.SchemaList{sub("o0"), blank()}
	case 4:
		s.Type = schema.PrimitiveTypes{schema.StringType}
	case 5:
		s.Type = schema.PrimitiveTypes{schema.StringType, schema.NullType}
	case 6:
		s.Pattern = v.Regexp("t")
	case 7:
		s.Enum = []interface{}{v.Str("e0"), v.Str("e1")}
	case 8:
		s.Enum = []interface{}{nil}
	case 9:
		s.Minimum = schema.Number{Val: 1, Initialized: true}
	case 10:
		s.Default = v.Str("default")
	case 11:
		annotate(s)
	case 12:
		s.Definitions = map[string]*schema.Schema{"d": sub("d")}
		s.AllOf = schema.SchemaList{ref("#/definitions/d")}
	case 13:
		s.Definitions = map[string]*schema.Schema{"d": sub("d")}
		s.Not = ref("#/definitions/d")
	}
}

// Any three of the combinations and the keywords next to them.
func Spec_C14_combos() {
	s := blank()
	const n = 14
	i := v.Choose(n)
	j := i + v.Choose(n-i)
	k := j + v.Choose(n-j)
	comboFeature(s, i)
	if j != i {
		comboFeature(s, j)
	}
	if k != j {
		comboFeature(s, k)
	}
	val := build(s)
	var x interface{}
	switch v.Choose(3) {
	case 0:
	case 1:
		x = v.Str("x")
	case 2:
		x = 2.0
	}
	v.Assert(accepts(val, x) == admits(s, s, x), "combinations and the keywords next to them are enforced together")
}

// The default of a schema, with each of its other keywords.
func Spec_C13_defaults() {
	s := blank()
	switch v.Choose(5) {
	case 0:
		s.Type = schema.PrimitiveTypes{schema.StringType}
	case 1:
		s.Type = schema.PrimitiveTypes{schema.NumberType}
	case 2:
		s.Type = schema.PrimitiveTypes{schema.IntegerType}
	case 3:
		s.Type = schema.PrimitiveTypes{schema.BooleanType}
	}
	d, k := anyJSON("d")
	v.Assume(k == kBool || k == kFloat || k == kString)
	scalarFeature(s, v.Choose(13))
	v.Assume(len(s.Type) > 0 || !s.Minimum.Initialized && !s.Maximum.Initialized && !s.MultipleOf.Initialized)
	s.Default = d
	v.Assume(len(s.Type) > 0 || len(s.Enum) == 0 && k == kString)
	switch v.Choose(5) {
	case 1:
		s.Not = typed(schema.ObjectType)
	case 2:
		s.AllOf = schema.SchemaList{blank(), typed(typeOf(k))}
	case 3:
		s.AnyOf = schema.SchemaList{typed(schema.NullType), typed(typeOf(k))}
	case 4:
		s.OneOf = schema.SchemaList{typed(schema.NullType), typed(typeOf(k))}
	}
	v.Assume(admits(s, s, d))
	o := typed(schema.ObjectType)
	o.Properties = map[string]*schema.Schema{"p": s}
	m := map[string]interface{}{}
	v.Assert(accepts(build(o), m), "an object that lacks an optional property is admitted")
	got, ok := m["p"]
	v.Assert(ok && v.DeepEq(got, d), "the default of a schema is the value given to an absent property, whatever its other keywords")
}
