package verifharness

import (
	"regexp"

	"github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval/builder"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// anySchema is one of many kinds of schema.
func anySchema() *schema.Schema {
	s := blank()
	switch v.Choose(9) {
	case 0:
		s = anyNumSpec(true).into(typed(schema.NumberType, schema.IntegerType))
		s.Default = v.Float("d")
	case 1:
		s = anyStrSpec().into(blank())
		s.Default = v.Str("d")
	case 2:
		s = typed(schema.ObjectType, schema.BooleanType, schema.NullType, schema.ArrayType)
		s.Enum = []interface{}{true, nil}
	case 3:
		s.Not, s.AllOf = sub("a"), schema.SchemaList{sub("b"), sub("c")}
		s.AnyOf, s.OneOf = schema.SchemaList{sub("d"), sub("e")}, schema.SchemaList{sub("f"), sub("g")}
	case 4:
		s.Items = &schema.ItemSpec{TupleMode: true, Schemas: schema.SchemaList{sub("a"), sub("b")}}
		s.AdditionalItems = &schema.AdditionalItems{Schema: sub("c")}
		s.MinItems, s.MaxItems = schema.Integer{Val: 1, Initialized: true}, schema.Integer{Val: 3, Initialized: true}
		s.UniqueItems = schema.Bool{Val: true, Initialized: true}
	case 5:
		s.Properties = map[string]*schema.Schema{"p": sub("p"), "q": sub("q")}
		s.PatternProperties = map[*regexp.Regexp]*schema.Schema{v.Regexp("rx"): sub("m")}
		s.AdditionalProperties = &schema.AdditionalProperties{Schema: sub("e")}
		s.Required = []string{"q", "p"}
	case 6:
		s.Type = schema.PrimitiveTypes{schema.ObjectType}
		s.Dependencies.Names = map[string][]string{"a": {"c", "b"}}
		s.Dependencies.Schemas = map[string]*schema.Schema{"d": sub("d")}
		s.MinProperties, s.MaxProperties = schema.Integer{Val: 1, Initialized: true}, schema.Integer{Val: 3, Initialized: true}
	case 7:
		s.Definitions = map[string]*schema.Schema{"a": ref("#/definitions/b"), "b": sub("b")}
		s.Properties = map[string]*schema.Schema{"p": ref("#/definitions/a"), "q": ref("#")}
	case 8:
		s.Items = &schema.ItemSpec{Schemas: schema.SchemaList{typed(schema.PrimitiveType(99))}}
	}
	return s
}

func Spec_C16_untouched() {
	s := anySchema()
	v.Freeze("the schema", s)
	var err error
	if v.Choose(2) == 0 {
		_, err = builder.New().Build(s)
	} else {
		ctx := map[string]interface{}{"x": "y"}
		v.Freeze("the document references are looked up in", ctx)
		_, err = builder.New().BuildWithCtx(s, ctx)
	}
	v.Thaw()
	if err == nil {
		v.Reach("built")
	} else {
		v.Reach("failed")
	}
}

// Using a validator does not touch the schema it was built from either.
func Spec_C16_using() {
	s := anySchema()
	val, err := builder.New().Build(s)
	v.Assume(err == nil)
	v.Freeze("the schema", s)
	x, _ := anyJSON("x")
	accepts(val, x)
	accepts(val, map[string]interface{}{"p": "q"})
	v.Thaw()
	v.Reach("used")
}

// Two validators built from one schema are independent and agree, and so do
// those of one builder.
func Spec_C16_twice() {
	s := blank()
	s.Definitions = map[string]*schema.Schema{"a": sub("a")}
	s.Properties = map[string]*schema.Schema{"p": ref("#/definitions/a")}
	t := blank()
	t.Definitions = map[string]*schema.Schema{"a": sub("b")}
	t.Properties = map[string]*schema.Schema{"p": ref("#/definitions/a")}
	b := builder.New()
	x := v.Str("x")
	doc := map[string]interface{}{"p": x}
	v1, err1 := b.Build(s)
	v2, err2 := b.Build(t)
	v3, err3 := b.Build(s)
	v.Assert(err1 == nil && err2 == nil && err3 == nil, "a builder can be used again")
	v.Assume(err1 == nil && err2 == nil && err3 == nil)
	v.Assert(accepts(v1, doc) == inSub("a", x), "validators built by one builder do not influence each other")
	v.Assert(accepts(v2, doc) == inSub("b", x), "validators built by one builder do not influence each other")
	v.Assert(accepts(v3, doc) == inSub("a", x), "validators built by one builder do not influence each other")
	v.Assert(v1 != v3 && v1.ConstraintMap != v3.ConstraintMap, "every build makes a validator of its own")
}
