package verifharness

import (
	"github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval/builder"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

func ref(to string) *schema.Schema {
	s := blank()
	s.Reference = to
	return s
}

// A reference from every place a schema may stand in.
func Spec_C15_places() {
	s := blank()
	s.Definitions = map[string]*schema.Schema{"a": sub("a"), "b": sub("b")}
	to, name := "#/definitions/a", "a"
	if v.Choose(2) == 1 {
		to, name = "#/definitions/b", "b"
	}
	x := v.Str("x")
	in := inSub(name, x)
	var doc interface{} = x
	switch v.Choose(12) {
	case 0:
		s.Not = ref(to)
		in = !in
	case 1:
		s.AllOf = schema.SchemaList{ref(to)}
	case 2:
		s.AnyOf = schema.SchemaList{ref(to)}
	case 3:
		s.OneOf = schema.SchemaList{ref(to), typed(schema.NullType)}
	case 4:
		s.Items = &schema.ItemSpec{Schemas: schema.SchemaList{ref(to)}}
		doc = []interface{}{x}
	case 5:
		s.Items = &schema.ItemSpec{TupleMode: true, Schemas: schema.SchemaList{blank(), ref(to)}}
		doc = []interface{}{nil, x}
	case 6:
		s.Items = &schema.ItemSpec{TupleMode: true, Schemas: schema.SchemaList{blank()}}
		s.AdditionalItems = &schema.AdditionalItems{Schema: ref(to)}
		doc = []interface{}{nil, x}
	case 7:
		s.Properties = map[string]*schema.Schema{"p": ref(to)}
		doc = map[string]interface{}{"p": x}
	case 8:
		s.PatternProperties = map[*rx]*schema.Schema{v.Regexp("rx"): ref(to)}
		v.Assume(v.Regexp("rx").MatchString("p"))
		doc = map[string]interface{}{"p": x}
	case 9:
		s.AdditionalProperties = &schema.AdditionalProperties{Schema: ref(to)}
		doc = map[string]interface{}{"p": x}
	case 10:
		s.Type = schema.PrimitiveTypes{schema.ObjectType}
		dep := typed(schema.ObjectType)
		dep.Properties = map[string]*schema.Schema{"p": ref(to)}
		s.Dependencies.Schemas = map[string]*schema.Schema{"p": dep}
		doc = map[string]interface{}{"p": x}
	case 11:
		o := typed(schema.ObjectType)
		o.Properties = map[string]*schema.Schema{"p": ref(to)}
		s.Properties = map[string]*schema.Schema{"o": o}
		doc = map[string]interface{}{"o": map[string]interface{}{"p": x}}
	}
	v.Assert(accepts(build(s), doc) == in, "a reference admits exactly what the schema it refers to admits, wherever it stands")
}

// Several references at once, and references in what is referred to.
func Spec_C15_chain() {
	s := blank()
	x := v.Str("x")
	var doc interface{} = map[string]interface{}{"p": x}
	var want bool
	a := blank()
	switch v.Choose(5) {
	case 0: // a refers to b
		s.Definitions = map[string]*schema.Schema{"a": ref("#/definitions/b"), "b": sub("b")}
		want = inSub("b", x)
	case 1: // a contains a reference to b
		a.AllOf = schema.SchemaList{sub("a"), ref("#/definitions/b")}
		s.Definitions = map[string]*schema.Schema{"a": a, "b": sub("b")}
		want = inSub("a", x) && inSub("b", x)
	case 2: // a and b both refer to c
		a.AllOf = schema.SchemaList{ref("#/definitions/c"), ref("#/definitions/b")}
		b := blank()
		b.AnyOf = schema.SchemaList{ref("#/definitions/c"), sub("b")}
		s.Definitions = map[string]*schema.Schema{"a": a, "b": b, "c": sub("c")}
		want = inSub("c", x)
	case 3: // through several steps
		a.Not = ref("#/definitions/b")
		b := blank()
		b.Not = ref("#/definitions/c")
		c := blank()
		c.Not = ref("#/definitions/d")
		s.Definitions = map[string]*schema.Schema{"a": a, "b": b, "c": c, "d": sub("d")}
		want = !inSub("d", x)
	case 4: // two references side by side
		s.Definitions = map[string]*schema.Schema{"a": sub("a"), "b": sub("b")}
		s.Properties = map[string]*schema.Schema{"p": ref("#/definitions/a"), "q": ref("#/definitions/b")}
		doc = map[string]interface{}{"p": x, "q": v.Str("y")}
		v.Assert(accepts(build(s), doc) == (inSub("a", x) && inSub("b", v.Str("y"))), "each reference stands for the schema it refers to")
		return
	}
	s.Properties = map[string]*schema.Schema{"p": ref("#/definitions/a")}
	v.Assert(accepts(build(s), doc) == want, "references inside of what is referred to are followed")
}

// A schema that contains itself.
func Spec_C15_recursive() {
	x, y := v.Str("x"), v.Str("y")
	s := typed(schema.ObjectType)
	var doc interface{}
	if v.Choose(2) == 0 {
		s.Properties = map[string]*schema.Schema{"v": sub("v"), "next": ref("#")}
		doc = map[string]interface{}{"v": x, "next": map[string]interface{}{"v": y}}
	} else {
		n := typed(schema.ObjectType)
		n.Properties = map[string]*schema.Schema{"v": sub("v"), "next": ref("#/definitions/n")}
		s.Definitions = map[string]*schema.Schema{"n": n}
		s.Properties = map[string]*schema.Schema{"n": ref("#/definitions/n")}
		doc = map[string]interface{}{"n": map[string]interface{}{"v": x, "next": map[string]interface{}{"v": y}}}
	}
	val := build(s)
	v.Assert(accepts(val, doc) == (inSub("v", x) && inSub("v", y)), "a schema may refer to itself, at every depth of the value")
}

// References that lead nowhere.
func Spec_C15_broken() {
	s := blank()
	s.Definitions = map[string]*schema.Schema{"a": sub("a")}
	to := []string{"#/definitions/zzz", "#/zzz", "#/definitions", "#/not", "#/title", "#/definitions/a/pattern", "#zzz", "zzz", "zzz#/a"}[v.Choose(9)]
	switch v.Choose(3) {
	case 0:
		s.Properties = map[string]*schema.Schema{"p": ref(to)}
	case 1:
		s.AllOf = schema.SchemaList{ref(to)}
	case 2:
		s.Definitions["b"] = ref(to)
		s.Properties = map[string]*schema.Schema{"p": ref("#/definitions/b")}
	}
	val, err := builder.New().Build(s)
	v.Assert(err != nil && val == nil, "building fails if a reference does not lead to a schema")
}

// References into a document that is not a schema itself.
func Spec_C15_context() {
	s := blank()
	x := v.Str("x")
	ctx := map[string]interface{}{"defs": map[string]interface{}{"a": sub("a"), "n": 1.0}}
	to := []string{"#/defs/a", "#/defs/n", "#/defs/b"}[v.Choose(3)]
	s.Properties = map[string]*schema.Schema{"p": ref(to)}
	val, err := builder.New().BuildWithCtx(s, ctx)
	if to != "#/defs/a" {
		v.Assert(err != nil && val == nil, "building fails if a reference does not lead to a schema")
		return
	}
	v.Assert(err == nil, "references are looked up in the document given")
	v.Assume(err == nil)
	v.Assert(accepts(val, map[string]interface{}{"p": x}) == inSub("a", x), "references are looked up in the document given")
}

// The same, with the document as decoded from JSON.
func Spec_C15_raw() {
	s := blank()
	def := map[string]interface{}{"type": "string", "maxLength": 3.0}
	ctx := map[string]interface{}{"defs": map[string]interface{}{"a": def}}
	s.Properties = map[string]*schema.Schema{"p": ref("#/defs/a")}
	val, err := builder.New().BuildWithCtx(s, ctx)
	v.Assert(err == nil, "references to schemas in decoded JSON are supported")
	v.Assume(err == nil)
	x, k := anyJSON("x")
	v.Assert(accepts(val, map[string]interface{}{"p": x}) == (k == kString && runes(asString(x)) <= 3), "a reference to decoded JSON stands for the schema it describes")
}

// A reference to a member of a list, in decoded JSON.
func Spec_C15_raw_list() {
	s := blank()
	def := map[string]interface{}{"type": "string", "maxLength": 3.0}
	ctx := map[string]interface{}{"allOf": []interface{}{map[string]interface{}{}, def}}
	to := []string{"#/allOf/1", "#/allOf/2", "#/allOf/x", "#/allOf"}[v.Choose(4)]
	s.Properties = map[string]*schema.Schema{"p": ref(to)}
	val, err := builder.New().BuildWithCtx(s, ctx)
	if to != "#/allOf/1" {
		v.Assert(err != nil && val == nil, "building fails if a reference does not lead to a schema")
		return
	}
	v.Assert(err == nil, "references to schemas in decoded JSON are supported")
	v.Assume(err == nil)
	x, k := anyJSON("x")
	v.Assert(accepts(val, map[string]interface{}{"p": x}) == (k == kString && runes(asString(x)) <= 3), "a reference to decoded JSON stands for the schema it describes")
}

// A reference to a member of a list of the schema itself.
func Spec_C15_own_list() {
	s := blank()
	s.AnyOf = schema.SchemaList{sub("a"), typed(schema.ObjectType)}
	s.Properties = map[string]*schema.Schema{"p": ref("#/anyOf/0")}
	built := false
	defer func() {
		if !built {
			recover()
		}
		v.Assert(built, "a reference to a member of a list of the schema itself can be built")
	}()
	builder.New().Build(s)
	built = true
}

// A reference to something in the document that is no schema, or none that
// can be supported.
func Spec_C15_raw_broken() {
	s := blank()
	var def interface{}
	switch v.Choose(7) {
	case 0:
		def = map[string]interface{}{"type": "strng"}
	case 1:
		def = map[string]interface{}{"type": 3.0}
	case 2:
		def = map[string]interface{}{"properties": []interface{}{}}
	case 3:
		def = nil
	case 5:
		def = v.Str("x")
	case 6:
		def = []interface{}{}
	case 4:
		def = map[string]interface{}{"not": map[string]interface{}{"$ref": "#/defs/zzz"}}
	}
	ctx := map[string]interface{}{"defs": map[string]interface{}{"a": def}}
	if v.Choose(2) == 0 {
		s.Properties = map[string]*schema.Schema{"p": ref("#/defs/a")}
	} else {
		s.AnyOf = schema.SchemaList{sub("s"), ref("#/defs/a")}
	}
	val, err := builder.New().BuildWithCtx(s, ctx)
	v.Assert(err != nil && val == nil, "building fails if a reference leads to something that is no supported schema")
}

// References together with everything else a schema may have.
func Spec_C15_together() {
	s := blank()
	s.Definitions = map[string]*schema.Schema{"a": sub("a"), "b": sub("b")}
	annotate(s)
	p := map[string]*schema.Schema{"a": ref("#/definitions/a"), "b": ref("#/definitions/b"), "s": ref("#"), "d": sub("d")}
	names := []string{"a", "b", "s", "d"}
	i, j := v.Choose(4), v.Choose(4)
	v.Assume(i < j)
	s.Properties = map[string]*schema.Schema{names[i]: p[names[i]], names[j]: p[names[j]]}
	if v.Choose(2) == 1 {
		annotate(p[names[i]])
	}
	if v.Choose(2) == 1 {
		p[names[j]].ID = p[names[j]].Reference
	}
	x, y := v.Str("x"), v.Str("y")
	doc := map[string]interface{}{}
	set := func(name string, z string) {
		if name == "s" {
			doc[name] = map[string]interface{}{names[i]: z}
			v.Assume(names[i] != "s")
			return
		}
		doc[name] = z
	}
	if names[i] != "s" {
		set(names[i], x)
	}
	set(names[j], y)
	v.Assert(accepts(build(s), doc) == admits(s, s, doc), "references stand for what they refer to, whatever else the schema has")
}

// The document given takes precedence over the schema.
func Spec_C15_document() {
	s := blank()
	x := v.Str("x")
	if v.Choose(2) == 1 {
		s.Definitions = map[string]*schema.Schema{"a": sub("own"), "b": sub("own")}
	}
	if v.Choose(2) == 1 {
		annotate(s)
	}
	ctx := map[string]interface{}{"definitions": map[string]interface{}{"a": sub("a"), "c": sub("c")}}
	to := []string{"a", "b", "c"}[v.Choose(3)]
	s.Properties = map[string]*schema.Schema{"p": ref("#/definitions/" + to)}
	val, err := builder.New().BuildWithCtx(s, ctx)
	if to == "b" {
		v.Assert(err != nil && val == nil, "references are looked up in the document given")
		return
	}
	v.Assert(err == nil, "references are looked up in the document given")
	v.Assume(err == nil)
	v.Assert(accepts(val, map[string]interface{}{"p": x}) == inSub(to, x), "references are looked up in the document given")
}

// The default of what is referred to.
func Spec_C15_default() {
	s := blank()
	var d interface{}
	a := blank()
	switch v.Choose(3) {
	case 0:
		a, d = typed(schema.StringType), v.Str("d")
	case 1:
		a, d = typed(schema.NumberType), v.Float("d")
	case 2:
		a, d = typed(schema.BooleanType), v.Bool("d")
	}
	a.Default = d
	s.Definitions = map[string]*schema.Schema{"a": a}
	to := "#/definitions/a"
	if v.Choose(2) == 1 {
		s.Definitions["b"] = ref(to)
		to = "#/definitions/b"
	}
	s.Properties = map[string]*schema.Schema{"p": ref(to)}
	m := map[string]interface{}{}
	v.Assert(accepts(build(s), m), "an object that lacks an optional property is admitted")
	got, ok := m["p"]
	v.Assert(ok && got == d, "the default of the schema referred to is the value given to an absent property")
}

// The document may be a schema other than the one that is built.
func Spec_C15_otherschema() {
	s, doc := blank(), blank()
	x := v.Str("x")
	if v.Choose(2) == 1 {
		s.Definitions = map[string]*schema.Schema{"a": sub("own"), "b": sub("own")}
	}
	doc.Definitions = map[string]*schema.Schema{"a": sub("a"), "c": ref("#/definitions/a")}
	doc.Properties = map[string]*schema.Schema{"q": sub("q")}
	to := []string{"definitions/a", "definitions/b", "definitions/c", "properties/q"}[v.Choose(4)]
	s.Properties = map[string]*schema.Schema{"p": ref("#/" + to)}
	val, err := builder.New().BuildWithCtx(s, doc)
	if to == "definitions/b" {
		v.Assert(err != nil && val == nil, "references are looked up in the document given")
		return
	}
	v.Assert(err == nil, "references are looked up in the document given")
	v.Assume(err == nil)
	want := inSub("a", x)
	if to == "properties/q" {
		want = inSub("q", x)
	}
	v.Assert(accepts(val, map[string]interface{}{"p": x}) == want, "references are looked up in the document given")
}
