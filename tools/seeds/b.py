seed("num-int-overflow", "C01",
 [("number.go", "		return ic.NumberConstraint.Validate(float64(rv.Uint()))", "		return ic.NumberConstraint.Validate(float64(int64(rv.Uint())))")],
 """check(jsval.Integer().Minimum(0).Validate(uint64(1<<63+2048)) == nil, "a large unsigned number is not negative")""",
 "an unsigned value above the range of int64", "large unsigned values are taken for negative numbers")
seed("str-min-format", "C02",
 [("string.go", "	if sc.minLength > -1 {", "	if sc.minLength > -1 && sc.format == \"\" {")],
 """check(jsval.String().Format("uri").MinLength(10).Validate("a") != nil, "minLength next to a format")""",
 "minLength next to a format", "minLength is ignored for strings with a format")
seed("null-typed-zero", "C03",
 [("basic.go", "	if rv == zeroval {\n		return nil\n	}\n\n	switch rv.Kind() {\n	case reflect.Chan, reflect.Func,", "	if rv == zeroval {\n		return nil\n	}\n\n	switch rv.Kind() {\n	case reflect.String:\n		if rv.String() == \"null\" {\n			return nil\n		}\n	case reflect.Chan, reflect.Func,")],
 """check(jsval.NullConstraint.Validate("null") != nil, "the text null is not null")""",
 "the string \"null\"", "the text null passes for null")
seed("combo-reduce-same", "C04",
 [("combinations.go", "	if len(l) == 1 {\n		return l[0]", "	if len(l) == 1 || len(l) == 2 && l[0] == l[1] {\n		return l[0]")],
 """s := jsval.String()
check(jsval.OneOf().Add(s).Add(s).Reduce().Validate("a") != nil, "one-of with the same member twice")
""",
 "a one-of that lists the same constraint twice", "the simplified form accepts what the combination rejects")
seed("ref-caches-failure", "C05",
 [("reference.go", "	c, err = r.resolver.GetReference(r.reference)\n	if err != nil {\n		return nil, err\n	}\n	r.resolved = c\n	return c, nil", "	c, err = r.resolver.GetReference(r.reference)\n	if r.resolved = c; c == nil {\n		r.resolved = EmptyConstraint\n	}\n	return c, err")],
 """r := jsval.Reference(jsval.New()).RefersTo("x")
check(r.Validate(1) != nil, "unknown reference")
check(r.Validate(1) != nil, "unknown reference, again")""",
 "validating twice with a reference whose name is not registered", "the second validation accepts anything")
seed("arr-unique-pairs", "C06",
 [("array.go", "	if mi := c.maxItems; mi > -1 && l > mi {", "	if mi := c.maxItems; mi > 0 && l > mi {")],
 """check(jsval.Array().MaxItems(0).Validate([]interface{}{1}) != nil, "maxItems 0")""",
 "maxItems of zero", "maxItems 0 is treated as unset")
seed("arr-items-stop-null", "C07",
 [("array.go", "			iv := rv.Index(i).Interface()\n			if err := celem.Validate(iv); err != nil {", "			iv := rv.Index(i).Interface()\n			if iv == nil && i > 0 {\n				break\n			}\n			if err := celem.Validate(iv); err != nil {")],
 """check(jsval.Array().Items(jsval.Integer()).Validate([]interface{}{1, nil, "x"}) != nil, "items after a null")""",
 "a null after the first item, followed by a bad item", "items after a null are not checked")
seed("obj-additional-empty-name", "C08",
 [("object.go", "	if len(premain) > 0 {\n		c := o.additionalProperties", "	delete(premain, \"\")\n	if len(premain) > 0 {\n		c := o.additionalProperties")],
 """check(jsval.Object().Validate(map[string]interface{}{"": 1}) != nil, "a property without a name is additional")""",
 "a property whose name is the empty string", "a property with an empty name escapes the additional-properties rule")
seed("obj-null-gets-default", "C10",
 [("object.go", "		case pval == zeroval:\n			// If we got", "		case pval == zeroval || pval.Kind() == reflect.Interface && pval.IsNil() && c.HasDefault():\n			// If we got")],
 """m := map[string]interface{}{"a": nil}
err := jsval.Object().AddProp("a", jsval.String().Default("d")).AdditionalProperties(jsval.EmptyConstraint).Validate(m)
check(err != nil && m["a"] == nil, "a property that is null is not absent")""",
 "a property that is present and null, with a default", "null properties are overwritten by their default")
seed("maybe-set-keeps-flag", "C11",
 [("maybe.go", "func (v *MaybeBool) Set(x interface{}) error {\n	s, ok := x.(bool)\n	if !ok {", "func (v *MaybeBool) Set(x interface{}) error {\n	s, ok := x.(bool)\n	v.Bool = s\n	if !ok {")],
 """var b jsval.MaybeBool
check(b.Set(true) == nil, "set")
check(b.Set("no") != nil && b.Valid() && b.Bool, "a refused value changes nothing")""",
 "a value of another type set after a suitable one", "a refused Set clears the held value")
seed("struct-registry-by-name", "C12",
 [("structinfo.go", "	registry map[reflect.Type]StructInfo\n}", "	registry map[string]StructInfo\n}"),
  ("structinfo.go", "	r.lock.RLock()\n	si, ok := r.registry[t]\n	r.lock.RUnlock()\n\n	return si, ok", "	r.lock.RLock()\n	si, ok := r.registry[t.String()]\n	r.lock.RUnlock()\n\n	return si, ok"),
  ("structinfo.go", "	si, ok := r.registry[t]\n	r.lock.RUnlock()\n\n	if ok {", "	si, ok := r.registry[t.String()]\n	r.lock.RUnlock()\n\n	if ok {"),
  ("structinfo.go", "	r.registry[t] = si", "	r.registry[t.String()] = si"),
  ("object.go", "	registry: make(map[reflect.Type]StructInfo),", "	registry: make(map[string]StructInfo),")],
 """c := jsval.Object().AddProp("b", jsval.String())
f := func() interface{} {
	type T struct { A string `json:"a"` }
	return T{A: "x"}
}
g := func() interface{} {
	type T struct { B string `json:"b"` }
	return T{B: "x"}
}
check(c.Validate(f()) != nil, "first type")
check(c.Validate(g()) == nil, "second type of the same name")""",
 "two struct types of the same name, validated one after the other", "a struct is judged by the fields of another type of the same name")

seed("builder-string-format-enum", "C13",
 [("builder/string.go", """	if f := s.Format; f != "" {
		c.Format(string(f))""", """	if f := s.Format; f != "" && s.Pattern == nil {
		c.Format(string(f))""")],
 """check(!verdict(`{"type":"string","format":"email","pattern":"^a"}`, `"abc"`), "format next to a pattern")""",
 "a schema with both a format and a pattern", "the format is dropped")
seed("builder-tuple-shared-var", "C14",
 [("builder/array.go", """				item, err := buildFromSchema(ctx, espec)
				if err != nil {
					return err
				}
				specs[i] = item""", """				item, err := buildFromSchema(ctx, espec)
				if err != nil {
					return err
				}
				if specs[i] = item; len(espec.Type) == 0 && espec.Reference == "" {
					specs[i] = jsval.EmptyConstraint
				}""")],
 """check(!verdict(`{"type":"array","items":[{"enum":[1]}]}`, `[2]`), "untyped positional item")""",
 "a positional item schema without a type", "untyped positional item schemas admit everything")
seed("builder-ref-broken-target", "C15",
 [("builder/builder.go", """		if err := s1.Extract(thing.(map[string]interface{})); err != nil {
			return err
		}""", """		if err := s1.Extract(thing.(map[string]interface{})); err != nil {
			s1 = schema.New()
		}""")],
 """src := `{"definitions":{"x":{"type":"strng","maxLength":2}},"properties":{"a":{"$ref":"#/definitions/x"}}}`
s := schema.New()
check(s.Extract(decoded(`{"properties":{"a":{"$ref":"#/definitions/x"}}}`).(map[string]interface{})) == nil, "schema")
_, err := builder.New().BuildWithCtx(s, decoded(src))
check(err != nil, "a reference to something that is no schema")""",
 "a reference to an object of the document that is not a valid schema", "the reference admits everything instead of making the build fail")
seed("builder-keeps-refs", "C16",
 [("builder/builder.go", "type Builder struct{}", "type Builder struct {\n	refs jsval.ConstraintMap\n}"),
  ("builder/builder.go", "	v = jsval.New()\n", "	v = jsval.New().SetConstraintMap(&b.refs)\n")],
 """b := builder.New()
get := func(src string) *jsval.JSVal {
	s, err := schema.Read(strings.NewReader(src))
	check(err == nil, "read")
	v, err := b.Build(s)
	check(err == nil, "build")
	return v
}
v1 := get(`{"definitions":{"x":{"type":"string"}},"properties":{"a":{"$ref":"#/definitions/x"}}}`)
check(v1.Validate(decoded(`{"a":"s"}`)) == nil, "first validator")
v2 := get(`{"definitions":{"x":{"type":"integer"}},"properties":{"a":{"$ref":"#/definitions/x"}}}`)
check(v2.Validate(decoded(`{"a":3}`)) == nil, "second validator of the same builder")""",
 "two schemas built by one builder that define the same name", "the second validator uses the definitions of the first")
seed("gen-number-zero", "C17",
 [("generator.go", "	if c.minLength > 0 {", "	if c.minLength > 0 && c.minLength != c.maxLength {")],
 """out := generated(`fmt.Println(V0.Validate("a") != nil)`, jsval.New().SetName("V0").SetRoot(jsval.String().MinLength(2).MaxLength(2)))
check(out == "true", "the minimum length is kept")""",
 "a string with equal minLength and maxLength", "the minimum length is lost in generated code")
seed("gen-deps-dup", "C18",
 [("generator.go", """			deplist := m[from]
			for _, to := range deplist {""", """			deplist := m[from]
			if _, ok := c.properties[from]; !ok && len(c.properties) > 0 {
				continue
			}
			for _, to := range deplist {""")],
 """out := generated(`fmt.Println(V0.Validate(map[string]interface{}{"a": 1}) != nil)`, jsval.New().SetName("V0").SetRoot(jsval.Object().AddProp("x", jsval.String()).AdditionalProperties(jsval.EmptyConstraint).PropDependency("a", "b")))
check(out == "true", "dependency of an undeclared property")""",
 "a dependency of a property that is not declared, next to declared ones", "the dependency is lost in generated code")
seed("gen-ref-raw", "C19",
 [("generator.go", """		fmt.Fprintf(out, ".RegexpString(%s)", strconv.Quote(rx.String()))""", """		fmt.Fprintf(out, ".RegexpString(`%s`)", rx.String())""")],
 """v := jsval.New().SetName("V0").SetRoot(jsval.String().RegexpString("a`b"))
var buf bytes.Buffer
check(jsval.NewGenerator().Process(&buf, v) == nil, "a pattern with a back quote")""",
 "a pattern that contains a back quote", "generated code does not compile")
seed("gen-pattern-order", "C20",
 [("generator.go", """	sort.Strings(ppnames)
""", """	sort.SliceStable(ppnames, func(i, j int) bool { return len(ppnames[i]) < len(ppnames[j]) })
""")],
 """first := ""
for i := 0; i < 50; i++ {
	o := jsval.Object()
	for _, p := range []string{"^a", "^b", "^c", "^d"} {
		o.PatternPropertiesString(p, jsval.String())
	}
	var buf bytes.Buffer
	check(jsval.NewGenerator().Process(&buf, jsval.New().SetName("V0").SetRoot(o)) == nil, "generated")
	if first == "" {
		first = buf.String()
	}
	check(buf.String() == first, "the same text every time")
}""",
 "an object with two patterns of the same length", "the order of patterns varies")
seed("gen-partial-output", "C21",
 [("generator.go", """	fsrc, err := format.Source(buf.Bytes())
	if err != nil {
		os.Stderr.Write(buf.Bytes())
		return err
	}""", """	fsrc, err := format.Source(buf.Bytes())
	if err != nil {
		io.MultiWriter(os.Stderr, out).Write(buf.Bytes())
		return err
	}""")],
 """v := jsval.New().SetName("not a name").SetRoot(jsval.String())
var buf bytes.Buffer
check(jsval.NewGenerator().Process(&buf, v) != nil, "an error")
check(buf.Len() == 0, "nothing is written")""",
 "a validator whose name is not an identifier", "code that does not parse is written out")
seed("structinfo-lazy-race", "C22",
 [("structinfo.go", """	r.lock.RLock()
	si, ok := r.registry[t]
	r.lock.RUnlock()

	return si, ok
""", """	si, ok := r.registry[t]
	return si, ok
""")],
 """// RACE
type A struct{ A string }
type B struct{ B string }
type C struct{ C string }
done := make(chan bool)
c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
for _, x := range []interface{}{A{}, B{}, C{}} {
	go func(x interface{}) {
		for i := 0; i < 100; i++ {
			c.Validate(x)
		}
		done <- true
	}(x)
}
for i := 0; i < 3; i++ {
	<-done
}""",
 "struct types seen for the first time by several goroutines", "the registry of struct types is read without its lock")
seed("ref-lock-during-validate", "C23",
 [("reference.go", "		return err\n	}\n	return c.Validate(v)", "		return err\n	}\n	r.lock.Lock()\n	defer r.lock.Unlock()\n	return c.Validate(v)")],
 """// a self-referring object
v := jsval.New()
o := jsval.Object().AddProp("n", jsval.Reference(v).RefersTo("#"))
v.SetReference("#", o)
v.SetRoot(o)
done := make(chan error, 1)
go func() { done <- v.Validate(decoded(`{"n":{"n":{}}}`)) }()
select {
case err := <-done:
	check(err == nil, "accepted")
case <-time.After(3 * time.Second):
	check(false, "validation of a nested object deadlocks")
}""",
 "values nested two levels deep in an object that refers to itself", "validation waits for its own lock")
seed("obj-nil-pointer", "C24",
 [("array.go", """		if rv == zeroval {
			typ = "invalid"
		} else {
			typ = rv.Type().String()
		}""", """		if v == nil {
			typ = "invalid"
		} else {
			typ = rv.Elem().Type().String()
		}""")],
 """// PANIC
check(jsval.Array().Validate("x") != nil, "a string is no array")""",
 "any value that is not a list, pointer or interface", "validation panics")
seed("cli-extract-last", "C25",
 [("cmd/jsval/jsval.go", "			schemas = append(schemas, s)", "			schemas = append([]*schema.Schema{s}, schemas...)")],
 """dir, err := ioutil.TempDir("", "demo")
check(err == nil, "scratch directory")
in := filepath.Join(dir, "in.json")
check(ioutil.WriteFile(in, []byte(`{"a":{"type":"string"},"b":{"type":"integer"}}`), 0600) == nil, "input")
out, err := exec.Command("go", "run", "./cmd/jsval", "-s", in, "-p", "/a", "-p", "/b", "-P", "P").Output()
os.RemoveAll(dir)
check(err == nil, "jsval runs")
text := string(out)
i, j := strings.Index(text, "P0 = "), strings.Index(text, "P1 = ")
check(i >= 0 && j > i && strings.Contains(text[i:j], "String()") && strings.Contains(text[j:], "Integer()"), "validators are named in the order given")""", "two pointers and a prefix", "validators are named in reverse order")
seed("srv-keeps-buffer", "C26",
 [("server/server.go", "type Server struct {\n	mutex     sync.Mutex", "type Server struct {\n	buf       bytes.Buffer\n	mutex     sync.Mutex"),
  ("server/server.go", "	buf := bytes.Buffer{}\n	if _, err := io.Copy(&buf, r.Body); err != nil {\n", "	buf := &s.buf\n	buf.Reset()\n	if _, err := io.Copy(buf, r.Body); err != nil {\n"),
  ("server/server.go", "g.Process(&buf, v)", "g.Process(buf, v)")],
 """// RACE
srv := server.New()
done := make(chan bool)
for i := 0; i < 4; i++ {
	go func() {
		for j := 0; j < 20; j++ {
			w := httptest.NewRecorder()
			srv.ServeHTTP(w, httptest.NewRequest("POST", "/generate.json", strings.NewReader(`{"type":"string"}`)))
		}
		done <- true
	}()
}
for i := 0; i < 4; i++ {
	<-done
}""",
 "two requests at the same time", "requests share a buffer")
seed("arr-unique-history", "C27",
 [("interface.go", "	uniqueItems     bool", "	uniqueItems     bool\n	seen            map[string]struct{}"),
  ("array.go", "		uitems = make(map[string]struct{})\n", "		if uitems = c.seen; uitems == nil {\n			uitems = make(map[string]struct{})\n			c.seen = uitems\n		}\n"),
  ("array.go", "			uitems[kv] = struct{}{}\n		}\n", "			uitems[kv] = struct{}{}\n		}\n		c.seen = nil\n")],
 """c := jsval.Array().UniqueItems(true)
check(c.Validate([]interface{}{1, 2}) == nil, "unique")
check(c.Validate([]interface{}{1, 2, 2}) != nil, "not unique")
check(c.Validate([]interface{}{1, 2}) == nil, "unique, after a list that was not")""",
 "a list validated after one with duplicates", "items of a rejected list count for the next one")
