package verifharness

import (
	"github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// calm reports a panic of f as a violation of clause.
func calm(clause string, f func()) {
	ok := false
	defer func() {
		if !ok {
			recover()
		}
		v.Assert(ok, clause)
	}()
	f()
	ok = true
}

type namedString string
type namedSlice []string
type namedMap map[string]int
type inner24 struct {
	X *int `json:"x"`
	y int
}

type oddError struct{ why []string }

func (oddError) Error() string { return "odd" }

// embeds holds embedded fields that are no structs.
type Count int
type embeds struct {
	namedString
	Count
	*inner24
	*Elsewhere
	error
	A string `json:"a"`
}
type Elsewhere struct{ B string }

// anyGoValue is a value of any shape a program may pass in.
func anyGoValue() interface{} {
	switch v.Choose(52) {
	case 0:
		return nil
	case 1:
		return v.Bool("b")
	case 2:
		return v.Float("f")
	case 3:
		return v.Str("s")
	case 4:
		return []interface{}{}
	case 5:
		return []interface{}{nil}
	case 6:
		return []interface{}{v.Str("s0"), v.Float("f0")}
	case 7:
		return []interface{}(nil)
	case 8:
		return map[string]interface{}{}
	case 9:
		return map[string]interface{}(nil)
	case 10:
		return map[string]interface{}{"a": nil}
	case 11:
		return map[string]interface{}{"a": v.Str("s1"), "b": v.Float("f1")}
	case 12:
		return map[string]interface{}{"a": []interface{}{}, "c": map[string]interface{}{}}
	case 13:
		return (*string)(nil)
	case 14:
		s := v.Str("s2")
		return &s
	case 15:
		return (*float64)(nil)
	case 16:
		f := v.Float("f2")
		return &f
	case 17:
		return (*inner24)(nil)
	case 18:
		return inner24{}
	case 19:
		return &inner24{}
	case 20:
		return namedString("x")
	case 21:
		return namedSlice{"a"}
	case 22:
		return namedMap{"a": 1}
	case 23:
		return map[int]string{1: "a"}
	case 24:
		return []string{"a", "a"}
	case 25:
		return []map[string]interface{}{{"a": 1}}
	case 26:
		return func() {}
	case 27:
		return error(nil)
	case 28:
		m := map[string]interface{}{"a": "x"}
		return &m
	case 29:
		return [2]int{1, 2}
	case 30:
		return v.In[int]("i")
	case 31:
		return v.In[uint64]("u")
	case 32:
		return (*map[string]interface{})(nil)
	case 33:
		return (**int)(nil)
	case 34:
		var p *int
		return &p
	case 35:
		n := 3
		p := &n
		return &p
	case 36:
		var i interface{}
		return &i
	case 37:
		var i interface{} = "x"
		return &i
	case 38:
		var e error
		return &e
	case 39:
		return oddError{}
	case 40:
		return map[namedString]int{"a": 1}
	case 41:
		return map[interface{}]interface{}{"a": 1}
	case 42:
		return embeds{namedString: "x", Count: 3}
	case 43:
		return complex(1, 2)
	case 44:
		return [1]interface{}{[]interface{}{}}
	case 45:
		return struct{ A interface{} }{[]interface{}{}}
	case 46:
		return &[]interface{}{"a"}
	case 47:
		return partly{val: nil}
	case 48:
		return &partly{noNames: true, noValues: v.Choose(2) == 1}
	case 49:
		return jsval.MaybeString{}
	case 50:
		return []jsval.MaybeInt{{}}
	default:
		return []byte("x")
	}
}

const total = "validation of any value ends with a verdict, never with a panic"

func validateCalmly(c jsval.Constraint) {
	x := anyGoValue()
	calm(total, func() { c.Validate(x) })
}

func Spec_C24_scalars() {
	var c jsval.Constraint
	switch v.Choose(9) {
	case 8:
		c = jsval.Enum([1]interface{}{[]interface{}{}}, struct{ A interface{} }{[]interface{}{}}, oddError{}, [2]int{1, 2}, []string{"a", "a"}, inner24{})
	case 0:
		c = jsval.String().MinLength(1).MaxLength(2).Regexp(v.Regexp("p")).Enum("a", "b")
	case 1:
		c = jsval.Number().Minimum(1).Maximum(2).MultipleOf(3).Enum(1.0)
	case 2:
		c = jsval.Integer().Minimum(1).ExclusiveMinimum(true).Enum(1.0)
	case 3:
		c = jsval.Boolean()
	case 4:
		c = jsval.NullConstraint
	case 5:
		c = jsval.EmptyConstraint
	case 6:
		c = jsval.Enum(nil, "a", 1.0, []interface{}{"a"}, map[string]interface{}{"a": nil})
	default:
		c = jsval.String().Format([]string{"email", "uri", "date-time", "unknown"}[v.Choose(4)])
	}
	validateCalmly(c)
}

func Spec_C24_arrays() {
	switch v.Choose(4) {
	case 0:
		validateCalmly(jsval.Array().MinItems(1).MaxItems(2).UniqueItems(true))
	case 1:
		validateCalmly(jsval.Array().Items(child{"i"}))
	case 2:
		validateCalmly(jsval.Array().PositionalItems([]jsval.Constraint{child{"p"}}).AdditionalItems(nil))
	default:
		validateCalmly(jsval.Array().PositionalItems([]jsval.Constraint{child{"p"}, child{"q"}}).AdditionalItems(child{"r"}))
	}
}

func Spec_C24_objects() {
	o := jsval.Object()
	switch v.Choose(7) {
	case 0:
		o.AddProp("a", child{"a"})
	case 1:
		o.Required("a")
	case 2:
		o.AdditionalProperties(child{"r"})
	case 3:
		o.PatternPropertiesString("^a", child{"p"})
	case 4:
		o.AddProp("a", jsval.EmptyConstraint).AdditionalProperties(jsval.EmptyConstraint).PropDependency("a", "b").SchemaDependency("b", child{"d"})
	case 5:
		o.AddProp("a", jsval.String().Default("d")).AdditionalProperties(jsval.EmptyConstraint)
	default:
		o.AddProp("x", jsval.Integer().Default(1.0)).MinProperties(1).MaxProperties(2)
	}
	validateCalmly(o)
}

func Spec_C24_combinations() {
	switch v.Choose(6) {
	case 0:
		validateCalmly(jsval.All().Add(child{"a"}).Add(child{"b"}))
	case 1:
		validateCalmly(jsval.Any().Add(child{"a"}).Add(child{"b"}))
	case 2:
		validateCalmly(jsval.OneOf().Add(child{"a"}).Add(child{"b"}))
	case 3:
		validateCalmly(jsval.Not(child{"a"}))
	case 4:
		validateCalmly(jsval.Not(nil))
	default:
		validateCalmly(jsval.Reference(&jsval.ConstraintMap{}).RefersTo("nowhere"))
	}
}

// buildCalmly builds a validator, which either succeeds or fails with an error.
func buildCalmly(s *schema.Schema, ctx interface{}) *jsval.JSVal {
	var val *jsval.JSVal
	var err error
	calm("building a validator from any schema ends with a validator or an error, never with a panic", func() {
		if ctx == nil {
			val, err = builder.New().Build(s)
		} else {
			val, err = builder.New().BuildWithCtx(s, ctx)
		}
	})
	v.Assert((val == nil) == (err != nil), "building yields either a validator or an error")
	return val
}

func Spec_C24_building() {
	val := buildCalmly(anySchema(), nil)
	if val == nil {
		return
	}
	x, _ := anyJSON("x")
	calm(total, func() { val.Validate(x) })
	calm(total, func() { val.Validate(map[string]interface{}{"p": "q"}) })
	calm(total, func() { val.Validate([]interface{}{"p", nil}) })
}

func Spec_C24_no_schema() {
	var ctx interface{}
	if v.Choose(2) == 1 {
		ctx = map[string]interface{}{}
	}
	v.Assert(buildCalmly(nil, ctx) == nil, "no validator is built from no schema")
}

// Schemas with odd parts: enums and defaults of every kind under every type,
// empty lists, references to nothing.
func Spec_C24_odd_schemas() {
	s := blank()
	var ctx interface{}
	switch v.Choose(12) {
	case 0, 1:
		if v.Choose(2) == 0 {
			s = typed(schema.StringType, schema.NumberType, schema.IntegerType, schema.BooleanType, schema.ArrayType, schema.ObjectType, schema.NullType)
		}
		s.Enum = []interface{}{anyGoValue()}
	case 2:
		s = typed([]schema.PrimitiveType{schema.StringType, schema.NumberType, schema.IntegerType, schema.BooleanType, schema.ArrayType, schema.ObjectType, schema.NullType}[v.Choose(7)])
		s.Default = anyGoValue()
	case 3:
		s.AllOf, s.AnyOf, s.OneOf = schema.SchemaList{}, schema.SchemaList{}, schema.SchemaList{}
		s.Enum, s.Type = []interface{}{}, schema.PrimitiveTypes{}
	case 4:
		s.Items = &schema.ItemSpec{TupleMode: true}
	case 5:
		s.AdditionalItems, s.AdditionalProperties = nil, nil
	case 6:
		s.Type = schema.PrimitiveTypes{schema.PrimitiveType(v.Int("type"))}
	case 7:
		s.Reference = []string{"#", "#/nowhere", "#/definitions/a/b", "nowhere", "%", "#/enum/0"}[v.Choose(6)]
		s.Enum = []interface{}{"a"}
		v.Assume(s.Reference != "#") // a reference that is its own target has no verdict
	case 8:
		s.Properties = map[string]*schema.Schema{"p": ref([]string{"#/a", "#/a/b", "#/a/0", "#/b", "#/c", "#/d"}[v.Choose(6)])}
		ctx = map[string]interface{}{"a": anyDecoded(), "b": nil, "c": map[string]interface{}{"type": "nosuch"}, "d": map[string]interface{}{"type": "string"}}
	case 9:
		s.Format = schema.Format(v.Str("format"))
		s.Type = schema.PrimitiveTypes{schema.StringType}
		val := buildCalmly(s, nil)
		calm(total, func() { val.Validate("x") })
		return
	case 10:
		s.Properties = map[string]*schema.Schema{}
		s.PatternProperties = map[*rx]*schema.Schema{}
		s.Required = []string{}
	case 11:
		s.MinItems, s.MaxItems = schema.Integer{Val: v.Int("n"), Initialized: true}, schema.Integer{Val: v.Int("m"), Initialized: true}
		s.MinLength, s.MaxLength = s.MinItems, s.MaxItems
		s.MinProperties, s.MaxProperties = s.MinItems, s.MaxItems
		s.MultipleOf = schema.Number{Val: v.Float("f"), Initialized: true}
	}
	val := buildCalmly(s, ctx)
	if val == nil {
		return
	}
	x, _ := anyJSON("x")
	calm(total, func() { val.Validate(x) })
	calm(total, func() { val.Validate(map[string]interface{}{"p": "q"}) })
}

// anyDecoded is a value as decoded from JSON.
func anyDecoded() interface{} {
	switch v.Choose(9) {
	case 0:
		return nil
	case 1:
		return true
	case 2:
		return 1.0
	case 3:
		return "a"
	case 4:
		return []interface{}{}
	case 5:
		return []interface{}{"a"}
	case 6:
		return []interface{}{map[string]interface{}{"type": "string"}}
	case 7:
		return map[string]interface{}{"b": "c", "0": nil}
	default:
		return map[string]interface{}{"b": map[string]interface{}{"type": "string"}}
	}
}
