package verifharness

import (
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

type base struct {
	ID   string `json:"id"`
	Note string
}

type tagged struct {
	A      string `json:"a"`
	Long   string `json:"long_name,omitempty"`
	Plain  string
	Comma  string `json:",omitempty"`
	Skip   string `json:"-"`
	Other  string `xml:"other"`
	hidden string
	secret string `json:"secret"`
	Dash   string `json:"-,"`
	Lead   string `json:"-x"`
	Short  string `json:"s"`
	base
	Opt jsval.MaybeString `json:"opt"`
	Num jsval.MaybeInt    `json:"num,omitempty"`
}

func anyTagged() (tagged, bool, bool) {
	x := tagged{A: v.Str("a"), Long: v.Str("long"), Plain: v.Str("plain"), Comma: v.Str("comma"), Skip: v.Str("skip"), Other: v.Str("other"), hidden: v.Str("hidden"), secret: v.Str("secret"), Dash: v.Str("dash"), Lead: v.Str("lead"), Short: v.Str("short")}
	x.base = base{ID: v.Str("id"), Note: v.Str("note")}
	opt, num := v.Choose(2) == 1, v.Choose(2) == 1
	if opt {
		x.Opt.Set(v.Str("opt"))
	}
	if num {
		x.Num.Set(v.Int64("num"))
	}
	return x, opt, num
}

// asMap is the object a tagged struct stands for.
func asMap(opt, num bool) map[string]interface{} {
	m := map[string]interface{}{"a": v.Str("a"), "long_name": v.Str("long"), "Plain": v.Str("plain"), "Comma": v.Str("comma"), "Other": v.Str("other"), "id": v.Str("id"), "Note": v.Str("note"), "-": v.Str("dash"), "-x": v.Str("lead"), "s": v.Str("short")}
	if opt {
		m["opt"] = v.Str("opt")
	}
	if num {
		m["num"] = v.Int64("num")
	}
	return m
}

var taggedNames = []string{"a", "long_name", "Plain", "Comma", "Other", "id", "Note", "opt", "num", "-", "-x", "s", "Skip", "secret", "hidden", "Dash", "-,", "base", "A", "Long", "ID", "Opt", "long_nam", ""}

// Every name is a property of the struct exactly if it is one of the object,
// with the same value.
func Spec_C12_names() {
	x, opt, num := anyTagged()
	m := asMap(opt, num)
	name := taggedNames[v.Choose(len(taggedNames))]
	val, has := m[name]
	var c *jsval.ObjectConstraint
	how := v.Choose(4)
	switch how {
	case 0:
		c = jsval.Object().AddProp(name, child{"c"}).AdditionalProperties(jsval.EmptyConstraint)
		if v.Choose(2) == 1 {
			c.Required(name)
			has = has && true
			got := accepts(c, x)
			v.Assert(got == (has && okFor("c", val)), "a required property of a struct is present exactly if the field is, and judged by its value")
			return
		}
	case 1:
		c = jsval.Object().PatternPropertiesString("^"+name+"$", child{"c"}).AdditionalProperties(jsval.EmptyConstraint)
	case 2:
		c = jsval.Object().AdditionalProperties(child{"c"})
		for k := range m {
			if k != name {
				c.AddProp(k, jsval.EmptyConstraint)
			}
		}
	case 3:
		c = jsval.Object().AdditionalProperties(jsval.EmptyConstraint).SchemaDependency(name, child{"dep"})
		got := accepts(c, x)
		v.Assert(got == (!has || okFor("dep", x)), "a property of a struct triggers dependencies exactly if the field is present")
		return
	}
	got := accepts(c, x)
	v.Assert(got == (!has || okFor("c", val)), "a property of a struct is judged by the value of its field, whether declared, matched or additional")
}

func Spec_C12_count() {
	x, opt, num := anyTagged()
	m := asMap(opt, num)
	n := v.Int("n")
	v.Assume(n >= 0)
	c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
	var want bool
	if v.Choose(2) == 0 {
		c.MinProperties(n)
		want = len(m) >= n
	} else {
		c.MaxProperties(n)
		want = len(m) <= n
	}
	var in interface{} = x
	if v.Choose(2) == 1 {
		in = &x
	}
	v.Assert(accepts(c, in) == want, "the exported fields that hold a value are counted as properties")
}

// All declared, nothing additional allowed.
func Spec_C12_closed() {
	x, opt, num := anyTagged()
	m := asMap(opt, num)
	left := taggedNames[v.Choose(12)]
	c := jsval.Object()
	for k := range m {
		if k != left {
			c.AddProp(k, jsval.EmptyConstraint)
		}
	}
	_, has := m[left]
	v.Assert(accepts(c, x) == !has, "a struct with a field that is not allowed is rejected and one without is accepted")
}

type inner struct {
	X string `json:"x"`
}

type outer struct {
	In  inner         `json:"in"`
	Ptr *inner        `json:"ptr"`
	L   []inner       `json:"l"`
	M   map[string]inner `json:"m"`
}

func Spec_C12_nested() {
	in := inner{X: v.Str("x")}
	o := outer{In: inner{X: v.Str("y")}}
	ic := jsval.Object().AddProp("x", child{"c"})
	c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
	want := okFor("c", v.Str("x"))
	switch v.Choose(4) {
	case 0:
		o.In = in
		c.AddProp("in", ic)
	case 1:
		o.Ptr = &in
		c.AddProp("ptr", ic)
	case 2:
		o.L = []inner{in}
		c.AddProp("l", jsval.Array().Items(ic))
	case 3:
		o.M = map[string]inner{"k": in}
		c.AddProp("m", jsval.Object().AddProp("k", ic))
	}
	if v.Choose(2) == 0 {
		v.Assert(accepts(c, o) == want, "structs inside structs, lists and maps are judged as objects")
	} else {
		v.Assert(accepts(c, &o) == want, "structs inside structs, lists and maps are judged as objects")
	}
}

// Struct types do not influence each other, in whatever order they are seen.
func Spec_C12_types() {
	type one struct {
		V string `json:"one"`
	}
	type two struct {
		V string `json:"two"`
	}
	a, b := one{v.Str("a")}, two{v.Str("b")}
	c := jsval.Object().AddProp("one", child{"c1"}).AddProp("two", child{"c2"})
	if v.Choose(2) == 0 {
		accepts(c, b)
	}
	if v.Choose(2) == 0 {
		accepts(c, &a)
	}
	v.Assert(accepts(c, a) == okFor("c1", v.Str("a")), "a struct type is judged the same whatever was validated before")
	v.Assert(accepts(c, b) == okFor("c2", v.Str("b")), "a struct type is judged the same whatever was validated before")
}

// Types of the same name in different scopes are different types.
func scoped1(x string) interface{} {
	type local struct {
		V string `json:"one"`
		W string `json:"-"`
	}
	return local{V: x, W: "w"}
}

func scoped2(x string) interface{} {
	type local struct {
		V string `json:"-"`
		W string `json:"two"`
	}
	return &local{V: "v", W: x}
}

func Spec_C12_scopes() {
	a, b := scoped1(v.Str("a")), scoped2(v.Str("b"))
	c := jsval.Object().AddProp("one", child{"c1"}).AddProp("two", child{"c2"})
	switch v.Choose(3) {
	case 0:
		accepts(c, b)
	case 1:
		accepts(c, a)
	}
	v.Assert(accepts(c, a) == okFor("c1", v.Str("a")), "a struct type is judged the same whatever was validated before")
	v.Assert(accepts(c, b) == okFor("c2", v.Str("b")), "a struct type is judged the same whatever was validated before")
}

// Custom property access takes precedence.
type custom struct {
	fields map[string]interface{}
	names  []string
	X      string `json:"x"`
}

func (c custom) GetPropNames() ([]string, error) { return c.names, nil }
func (c custom) GetPropValue(n string) (interface{}, error) {
	return c.fields[n], nil
}

func Spec_C12_custom() {
	x := custom{names: []string{"p"}, fields: map[string]interface{}{"p": v.Str("p")}, X: v.Str("x")}
	c := jsval.Object().AddProp("p", child{"c"})
	v.Assert(accepts(c, x) == okFor("c", v.Str("p")), "a struct that says what its properties are is judged by them")
}

type pair struct {
	A string            `json:"a"`
	B jsval.MaybeString `json:"b"`
	C interface{}       `json:"c"`
	D []string          `json:"d,omitempty"`
}

// Under every rule, a struct gets the verdict of the object it stands for.
func Spec_C12_together() {
	x := pair{A: v.Str("xa"), D: []string{v.Str("xd")}}
	m := map[string]interface{}{"a": v.Str("xa"), "c": nil, "d": []string{v.Str("xd")}}
	if v.Choose(2) == 1 {
		x.B.Set(v.Str("xb"))
		m["b"] = v.Str("xb")
	}
	if v.Choose(2) == 1 {
		x.C, m["c"] = v.Str("xc"), v.Str("xc")
	}
	c := jsval.Object()
	switch v.Choose(4) {
	case 0:
		c.AdditionalProperties(jsval.EmptyConstraint)
	case 1:
		c.AddProp("b", child{"cb"}).AdditionalProperties(jsval.EmptyConstraint)
	case 2:
		c.AddProp("d", jsval.EmptyConstraint).PatternPropertiesString("^[ab]$", jsval.EmptyConstraint).AddProp("c", child{"cc"})
	case 3:
		c.PatternPropertiesString("^[cd]$", jsval.EmptyConstraint).AddProp("a", jsval.EmptyConstraint).AdditionalProperties(child{"add"})
	}
	var in interface{} = x
	switch v.Choose(10) {
	case 1:
		c.Required("b")
	case 2:
		c.Required("c")
	case 3:
		c.MinProperties(4)
	case 4:
		c.MaxProperties(3)
	case 5:
		c.PropDependency("a", "b")
	case 6:
		c.PropDependency("b", "e")
	case 7:
		c.SchemaDependency("b", jsval.Object().AddProp("a", child{"dep"}).AdditionalProperties(jsval.EmptyConstraint))
	case 8:
		c.SchemaDependency("c", jsval.Object().AdditionalProperties(jsval.EmptyConstraint).Required("b"))
	case 9:
		in = &x
	}
	v.Assert(accepts(c, in) == accepts(c, m), "a struct gets the verdict of the object its fields make, under every rule")
}

// Property access that does not know everything.
type partly struct {
	noNames, noValues bool
	val               interface{}
	X                 string `json:"x"`
}

func (p partly) GetPropNames() ([]string, error) {
	if p.noNames {
		return []string{"q"}, errInvalid
	}
	return []string{"p"}, nil
}
func (p partly) GetPropValue(n string) (interface{}, error) {
	if p.noValues || n != "p" {
		return "q", errInvalid
	}
	return p.val, nil
}

func Spec_C12_partly() {
	x := partly{noNames: v.Choose(2) == 1, X: v.Str("x")}
	if x.noNames {
		x.noValues = v.Choose(2) == 1
		// names and values come from the fields
		c := jsval.Object()
		switch v.Choose(3) {
		case 0:
			c.AddProp("x", child{"c"}).Required("x")
		case 1:
			c.PatternPropertiesString("^x$", child{"c"})
		default:
			c.AdditionalProperties(child{"c"})
		}
		v.Assert(accepts(c, x) == okFor("c", v.Str("x")), "a struct that cannot say what its properties are is judged by its fields")
		return
	}
	var val interface{}
	if v.Choose(2) == 1 {
		val, _ = anyJSON("p")
	}
	x.val = val
	c := jsval.Object()
	switch v.Choose(4) {
	case 0:
		c.PatternPropertiesString("^p$", child{"c"})
	case 1:
		c.AdditionalProperties(child{"c"})
	case 2:
		if val == nil {
			return
		}
		c.AddProp("p", child{"c"})
	case 3:
		v.Assert(!accepts(c, x), "a property that a struct says it has and that is not allowed is rejected")
		return
	}
	v.Assert(accepts(c, x) == okFor("c", val), "a struct that says what its properties are is judged by them, null included")
}
