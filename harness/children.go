package verifharness

import (
	"errors"

	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

var errInvalid = errors.New("invalid")

// child is an arbitrary constraint: its verdict on each value is arbitrary
// but fixed.
type child struct{ id string }

func (c child) Validate(x interface{}) error {
	if v.Holds("valid", c.id, x) {
		return nil
	}
	return errInvalid
}
func (c child) HasDefault() bool          { return false }
func (c child) DefaultValue() interface{} { return nil }

// okFor is the verdict of child id on x.
func okFor(id string, x interface{}) bool { return v.Holds("valid", id, x) }

// fixed is a constraint with one verdict.
type fixed struct {
	id string
	ok bool
}

func (c fixed) Validate(x interface{}) error {
	if c.ok {
		return nil
	}
	return errInvalid
}
func (c fixed) HasDefault() bool          { return false }
func (c fixed) DefaultValue() interface{} { return nil }

// manyFixed stands for one or more constraints with the same verdict.
func manyFixed(class string, ok bool) jsval.Constraint {
	return fixed{v.Many[string](class), ok}
}
