// Package verifharness states the properties of the repository as code over
// its public API. It is analysed, never executed.
package verifharness

import (
	"regexp"
	"unicode/utf8"

	"github.com/lestrrat-go/jsval/verifharness/v"
)

// Kinds of arbitrary values.
const (
	kNull = iota
	kBool
	kFloat
	kString
	kArray
	kObject
	nJSON
)

const (
	kInt = nJSON + iota
	kInt8
	kInt16
	kInt32
	kInt64
	kUint
	kUint8
	kUint16
	kUint32
	kUint64
	kFloat32
	nScalarKinds
)

// anyJSON is an arbitrary decoded JSON value (containers: empty).
func anyJSON(name string) (interface{}, int) {
	switch k := v.Choose(nJSON); k {
	case kNull:
		return nil, k
	case kBool:
		return v.Bool(name + ".bool"), k
	case kFloat:
		return v.Float(name + ".num"), k
	case kString:
		return v.Str(name + ".str"), k
	case kArray:
		return []interface{}{}, k
	default:
		return map[string]interface{}{}, k
	}
}

// anyScalar is an arbitrary JSON value or a Go number of any width.
func anyScalar(name string) (interface{}, int) {
	switch k := v.Choose(nScalarKinds); k {
	case kInt:
		return v.In[int](name + ".i"), k
	case kInt8:
		return v.In[int8](name + ".i8"), k
	case kInt16:
		return v.In[int16](name + ".i16"), k
	case kInt32:
		return v.In[int32](name + ".i32"), k
	case kInt64:
		return v.In[int64](name + ".i64"), k
	case kUint:
		return v.In[uint](name + ".u"), k
	case kUint8:
		return v.In[uint8](name + ".u8"), k
	case kUint16:
		return v.In[uint16](name + ".u16"), k
	case kUint32:
		return v.In[uint32](name + ".u32"), k
	case kUint64:
		return v.In[uint64](name + ".u64"), k
	case kFloat32:
		return v.In[float32](name + ".f32"), k
	case kNull:
		return nil, k
	case kBool:
		return v.Bool(name + ".bool"), k
	case kFloat:
		return v.Float(name + ".num"), k
	case kString:
		return v.Str(name + ".str"), k
	case kArray:
		return []interface{}{}, k
	default:
		return map[string]interface{}{}, kObject
	}
}

// numberOf is the numeric value of a scalar, as a JSON number.
func numberOf(x interface{}) (f float64, isFloat, isNum bool) {
	switch n := x.(type) {
	case int:
		return float64(n), false, true
	case int8:
		return float64(n), false, true
	case int16:
		return float64(n), false, true
	case int32:
		return float64(n), false, true
	case int64:
		return float64(n), false, true
	case uint:
		return float64(n), false, true
	case uint8:
		return float64(n), false, true
	case uint16:
		return float64(n), false, true
	case uint32:
		return float64(n), false, true
	case uint64:
		return float64(n), false, true
	case float32:
		return float64(n), true, true
	case float64:
		return n, true, true
	}
	return 0, false, false
}

// accepts is the verdict of a validator.
func accepts(c interface{ Validate(interface{}) error }, x interface{}) bool {
	return c.Validate(x) == nil
}

type rx = regexp.Regexp

func runes(s string) int { return utf8.RuneCountInString(s) }
