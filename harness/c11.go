package verifharness

import (
	"encoding/json"
	"time"

	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// anyMaybe is one of the Maybe types, in any state.
func anyMaybe() (m jsval.Maybe, kind int) {
	on := jsval.ValidFlag(v.Bool("on"))
	switch k := v.Choose(6); k {
	case 0:
		return &jsval.MaybeBool{ValidFlag: on, Bool: v.Bool("old.bool")}, k
	case 1:
		return &jsval.MaybeFloat{ValidFlag: on, Float: v.Float("old.float")}, k
	case 2:
		return &jsval.MaybeInt{ValidFlag: on, Int: v.Int64("old.int")}, k
	case 3:
		return &jsval.MaybeString{ValidFlag: on, String: v.Str("old.str")}, k
	case 4:
		return &jsval.MaybeUint{ValidFlag: on, Uint: v.Uint64("old.uint")}, k
	default:
		return &jsval.MaybeTime{ValidFlag: on, Time: v.In[time.Time]("old.time")}, k
	}
}

// setTo is what setting x makes of a Maybe of the given kind.
func setTo(kind int, x interface{}) (interface{}, bool) {
	switch kind {
	case 0:
		b, ok := x.(bool)
		return b, ok
	case 3:
		s, ok := x.(string)
		return s, ok
	case 5:
		switch t := x.(type) {
		case time.Time:
			return t, true
		case string:
			p, err := time.Parse(time.RFC3339, t)
			return p, err == nil
		}
		return nil, false
	}
	switch n := x.(type) {
	case int:
		return int64(n), kind == 2
	case int8:
		return int64(n), kind == 2
	case int16:
		return int64(n), kind == 2
	case int32:
		return int64(n), kind == 2
	case int64:
		return n, kind == 2
	case uint:
		return uint64(n), kind == 4
	case uint8:
		return uint64(n), kind == 4
	case uint16:
		return uint64(n), kind == 4
	case uint32:
		return uint64(n), kind == 4
	case uint64:
		return n, kind == 4
	case float32:
		return float64(n), kind == 1
	case float64:
		switch kind {
		case 1:
			return n, true
		case 2:
			return int64(n), true
		case 4:
			return uint64(n), true
		}
	}
	return nil, false
}

func Spec_C11_set() {
	m, kind := anyMaybe()
	was, old := m.Valid(), m.Value()
	var x interface{}
	switch v.Choose(5) {
	case 0:
		x = v.In[time.Time]("x.time")
	case 1:
		x = time.Time{}
	default:
		x, _ = anyScalar("x")
		if f, ok := x.(float64); ok && kind == 4 && f < 0 { // whether it can be set is left open
			if err := m.Set(x); err != nil {
				v.Assert(m.Valid() == was && v.DeepEq(m.Value(), old), "a refused value changes nothing")
			}
			return
		}
	}
	want, ok := setTo(kind, x)
	err := m.Set(x)
	if ok {
		v.Assert(err == nil, "a value of a suitable type can be set")
		v.Assert(m.Valid(), "a value that was set makes the Maybe valid")
		v.Assert(v.DeepEq(m.Value(), want), "the value that was set is the value held")
	} else {
		v.Assert(err != nil, "a value of an unsuitable type is refused")
		v.Assert(m.Valid() == was && v.DeepEq(m.Value(), old), "a refused value changes nothing")
	}
}

func Spec_C11_reset() {
	m, kind := anyMaybe()
	m.Reset()
	v.Assert(!m.Valid(), "a Maybe that was reset is not valid")
	x, _ := anyScalar("x")
	if f, ok := x.(float64); ok && kind == 4 {
		v.Assume(f >= 0)
	}
	if _, ok := setTo(kind, x); ok {
		v.Assert(m.Set(x) == nil && m.Valid(), "a Maybe can be set again after a reset")
	}
}

func Spec_C11_zero() {
	switch v.Choose(6) {
	case 0:
		v.Assert(!(jsval.MaybeBool{}).Valid(), "a Maybe starts out uninitialised")
	case 1:
		v.Assert(!(jsval.MaybeFloat{}).Valid(), "a Maybe starts out uninitialised")
	case 2:
		v.Assert(!(jsval.MaybeInt{}).Valid(), "a Maybe starts out uninitialised")
	case 3:
		v.Assert(!(jsval.MaybeString{}).Valid(), "a Maybe starts out uninitialised")
	case 4:
		v.Assert(!(jsval.MaybeUint{}).Valid(), "a Maybe starts out uninitialised")
	case 5:
		v.Assert(!(jsval.MaybeTime{}).Valid(), "a Maybe starts out uninitialised")
	}
}

// decodeAs is what decoding the text into the plain type gives.
func decodeAs(kind int, text string) (x interface{}, err error) {
	data := []byte(text)
	switch kind {
	case 0:
		var b bool
		err = json.Unmarshal(data, &b)
		return b, err
	case 1:
		var f float64
		err = json.Unmarshal(data, &f)
		return f, err
	case 2:
		var i int64
		err = json.Unmarshal(data, &i)
		return i, err
	case 3:
		var s string
		err = json.Unmarshal(data, &s)
		return s, err
	case 4:
		var u uint64
		err = json.Unmarshal(data, &u)
		return u, err
	}
	var s string
	if err = json.Unmarshal(data, &s); err != nil {
		return nil, err
	}
	t, err := time.Parse(time.RFC3339, s)
	return t, err
}

func Spec_C11_decode() {
	m, kind := anyMaybe()
	was, old := m.Valid(), m.Value()
	text := v.Str("text")
	want, werr := decodeAs(kind, text)
	err := m.(json.Unmarshaler).UnmarshalJSON([]byte(text))
	v.Assert((err == nil) == (werr == nil), "decoding fails exactly when the text is not JSON of the plain type")
	if err == nil {
		v.Assert(m.Valid(), "a Maybe decoded from JSON is valid")
		v.Assert(v.DeepEq(m.Value(), want), "a Maybe decoded from JSON holds the decoded value")
	} else {
		v.Assert(m.Valid() == was && v.DeepEq(m.Value(), old), "a failed decoding changes nothing")
	}
}

func Spec_C11_encode() {
	m, kind := anyMaybe()
	b, err := m.(json.Marshaler).MarshalJSON()
	var plain interface{} = m.Value()
	if t, ok := m.(*jsval.MaybeTime); ok {
		plain = t.Time.Format(time.RFC3339)
	}
	want, _ := json.Marshal(plain)
	_ = kind
	v.Assert(err == nil && string(b) == string(want), "a Maybe is encoded as its plain value")
}
