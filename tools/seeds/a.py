seed("num-min-excl-int", "C01",
 [("number.go", """func (ic *IntegerConstraint) ExclusiveMaximum(b bool) *IntegerConstraint {
	ic.NumberConstraint.ExclusiveMaximum(b)""", """func (ic *IntegerConstraint) ExclusiveMaximum(b bool) *IntegerConstraint {
	ic.NumberConstraint.ExclusiveMinimum(b)""")],
 """check(jsval.Integer().Maximum(10).ExclusiveMaximum(true).Validate(10) != nil, "exclusive maximum of an integer")""",
 "an integer exactly at an exclusive maximum", "exclusive maximum of integer constraints is not applied")
seed("str-enum-pattern", "C02",
 [("string.go", "	if enum := sc.enums; enum != nil {", "	if enum := sc.enums; enum != nil && sc.regexp == nil {")],
 """check(jsval.String().Enum("a").RegexpString("^.$").Validate("b") != nil, "enum next to a pattern")""",
 "a string constraint with both pattern and enum", "the enum is ignored when there is a pattern")
seed("arr-tuple-additional", "C07",
 [("array.go", "		if lp > 0 && l > lp { // we got more than positional schemas", "		if lp > 0 && l > lp+1 { // we got more than positional schemas")],
 """c := jsval.Array().PositionalItems([]jsval.Constraint{jsval.String()}).AdditionalItems(jsval.Integer())
check(c.Validate([]interface{}{"a", "b"}) != nil, "additional item is checked")""",
 "exactly one item more than there are positional constraints", "a single additional item escapes validation")
seed("obj-minprops-zero", "C09",
 [("object.go", "if o.maxProperties > -1 && lf > o.maxProperties {", "if o.maxProperties > 0 && lf > o.maxProperties {")],
 """check(jsval.Object().AdditionalProperties(jsval.EmptyConstraint).MaxProperties(0).Validate(map[string]interface{}{"a": 1}) != nil, "maxProperties 0")""",
 "maxProperties of zero", "maxProperties 0 is treated as unset")
seed("builder-exclmin-false", "C13",
 [("builder/number.go", "nc.ExclusiveMaximum(s.ExclusiveMaximum.Val)", "nc.ExclusiveMaximum(true)")],
 """check(verdict(`{"type":"integer","maximum":3,"exclusiveMaximum":false}`, `3`), "exclusiveMaximum false")""",
 "a schema that says exclusiveMaximum: false", "exclusiveMaximum: false is taken for true")
seed("builder-deps-first", "C14",
 [("builder/object.go", "c.PropDependency(from, to...)", "c.PropDependency(from, to[:1]...)")],
 """check(!verdict(`{"type":"object","dependencies":{"a":["b","c"]}}`, `{"a":1,"b":1}`), "all dependencies count")""",
 "a property that depends on two others, only the first of which is there", "only the first dependency is enforced")
seed("builder-nested-ref", "C15",
 [("builder/builder.go", """	v.SetReference(ref, c1)
	for ref := range ctx.R {
		if err := compileReferences(ctx, r, v, ref, jsctx); err != nil {
			return err
		}
	}
	return nil""", """	v.SetReference(ref, c1)
	return nil""")],
 """for i := 0; i < 300; i++ {
check(verdict(`{"definitions":{"a":{"type":"array","items":{"$ref":"#/definitions/b"}},"b":{"type":"string"}},"properties":{"p":{"$ref":"#/definitions/a"}}}`, `{"p":["x"]}`), "references inside of definitions")
}""",
 "a definition that itself refers to another one", "references that only occur inside of referenced schemas are never compiled")
seed("builder-sorts-schema", "C16",
 [("builder/builder.go", """		sts = make(schema.PrimitiveTypes, l)
		copy(sts, s.Type)""", """		sts = s.Type[:l]""")],
 """s, err := schema.Read(strings.NewReader(`{"type":["string","null","integer"]}`))
check(err == nil, "read")
before := fmt.Sprint(s.Type)
_, err = builder.New().Build(s)
check(err == nil && fmt.Sprint(s.Type) == before, "the schema is left alone")""",
 "a schema with several types not in the order of their numbers", "building reorders the type list of the caller's schema")
