package verifharness

import (
	"bytes"
	"errors"

	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// sink is a writer that may fail.
type sink struct {
	fail bool
	n    int
	text string
}

var errSink = errors.New("sink")

func (s *sink) Write(p []byte) (int, error) {
	s.n++
	if s.fail {
		return 0, errSink
	}
	s.text += string(p)
	return len(p), nil
}

func Spec_C21_writeError() {
	s := &sink{fail: v.Choose(2) == 1}
	val := named(leaf("p"))
	if v.Choose(2) == 1 {
		val.SetReference("r", leaf("r"))
	}
	err := jsval.NewGenerator().Process(s, val)
	if s.fail {
		v.Assert(err != nil, "a failure to write generated code is reported")
		return
	}
	v.Assert(err == nil, "code can be generated for every validator made of the constraints of this package")
	var buf bytes.Buffer
	jsval.NewGenerator().Process(&buf, val)
	v.Assert(s.text == buf.String(), "all of the generated code is written")
}

// embed puts c anywhere in a validator.
func embed(c jsval.Constraint) *jsval.JSVal {
	val := named(jsval.EmptyConstraint)
	switch v.Choose(20) {
	case 0:
		val.SetRoot(c)
	case 16:
		val.SetRoot(jsval.All().Add(leaf("p")).Add(c).Add(leaf("q")).Add(leaf("r")))
	case 17:
		val.SetRoot(jsval.OneOf().Add(c).Add(leaf("p")).Add(leaf("q")))
	case 18:
		val.SetRoot(jsval.Any().Add(leaf("p")).Add(leaf("q")).Add(c))
	case 19:
		val.SetRoot(jsval.Object().AddProp("a", leaf("p")).AddProp("b", jsval.Not(c)).AddProp("c", leaf("q")))
	case 1:
		val.SetRoot(jsval.Not(c))
	case 2:
		val.SetRoot(jsval.All().Add(leaf("p")).Add(c))
	case 3:
		val.SetRoot(jsval.Any().Add(c).Add(leaf("p")))
	case 4:
		val.SetRoot(jsval.OneOf().Add(leaf("p")).Add(c))
	case 5:
		val.SetRoot(jsval.Array().Items(c))
	case 6:
		val.SetRoot(jsval.Array().PositionalItems([]jsval.Constraint{leaf("p"), c}))
	case 7:
		val.SetRoot(jsval.Array().PositionalItems([]jsval.Constraint{leaf("p")}).AdditionalItems(c))
	case 8:
		val.SetRoot(jsval.Object().AddProp("a", c))
	case 9:
		val.SetRoot(jsval.Object().AdditionalProperties(c))
	case 10:
		val.SetRoot(jsval.Object().PatternPropertiesString("a", c))
	case 11:
		val.SetRoot(jsval.Object().SchemaDependency("a", c))
	case 12:
		val.SetReference("r", c)
	case 13:
		val.SetReference("r", c)
		val.SetRoot(jsval.Reference(val.ConstraintMap).RefersTo("r"))
	case 14:
		val.SetReference("r", c)
		val.SetRoot(c)
	default:
		val.SetReference("q", leaf("q"))
		val.SetReference("r", jsval.Array().Items(c))
	}
	return val
}

// A constraint that has no textual form is reported, wherever it is.
func Spec_C21_foreignConstraint() {
	s := &sink{}
	err := jsval.NewGenerator().Process(s, embed(child{"c"}))
	v.Assert(err != nil, "a constraint that code cannot be generated for is reported")
	v.Assert(s.n == 0, "nothing is written when code cannot be generated")
}

func Spec_C21_wrongDefault() {
	s := &sink{}
	err := jsval.NewGenerator().Process(s, embed(jsval.String().Default(v.Int("default"))))
	v.Assert(err != nil, "a default that is no string is reported for a string constraint")
	v.Assert(s.n == 0, "nothing is written when code cannot be generated")
}

type opaque struct{ a, b int }

func Spec_C21_unprintableValue() {
	var c jsval.Constraint
	bad := interface{}(opaque{1, 2})
	switch v.Choose(4) {
	case 0:
		c = jsval.Enum(bad)
	case 1:
		c = jsval.Enum("a", []interface{}{bad})
	case 2:
		c = jsval.String().Enum("a", bad)
	default:
		c = jsval.Enum(map[string]interface{}{"k": bad})
	}
	s := &sink{}
	err := jsval.NewGenerator().Process(s, embed(c))
	v.Assert(err != nil, "a value that has no textual form is reported")
	v.Assert(s.n == 0, "nothing is written when code cannot be generated")
}

// A foreign constraint in one of several validators is reported too.
func Spec_C21_several() {
	good, bad := named(leaf("p")).SetName("A"), named(child{"c"}).SetName("B")
	s := &sink{}
	var err error
	if v.Choose(2) == 1 {
		err = jsval.NewGenerator().Process(s, good, bad)
	} else {
		err = jsval.NewGenerator().Process(s, bad, good)
	}
	v.Assert(err != nil, "a constraint that code cannot be generated for is reported")
	v.Assert(s.n == 0, "nothing is written when code cannot be generated")
}

// Text that is not Go code is reported.
func Spec_C21_badName() {
	s := &sink{}
	err := jsval.NewGenerator().Process(s, jsval.New().SetName("not an identifier").SetRoot(leaf("p")))
	v.Assert(err != nil, "code that does not parse is reported")
	v.Assert(s.n == 0, "nothing is written when code cannot be generated")
}

// Generation leaves the validators as they are.
func Spec_C21_inputs() {
	b, a := embed(leaf("c")).SetName("B"), named(jsval.String().Enum("x", "y")).SetName("A")
	vals := []*jsval.JSVal{b, a}
	s := &sink{}
	g := jsval.NewGenerator()
	v.Freeze("generation modifies the validators it is given", b, a, vals)
	g.Process(s, vals...)
	v.Thaw()
}
