// Package v declares the vocabulary of the specifications. Nothing here is
// ever executed: the analyser gives each of these functions its meaning.
package v

import "regexp"

// Inputs: arbitrary values, identified by name.
func In[T any](name string) T   { panic("spec") }
func Bool(name string) bool     { panic("spec") }
func Int(name string) int       { panic("spec") }
func Int64(name string) int64   { panic("spec") }
func Uint64(name string) uint64 { panic("spec") }
func Float(name string) float64 { panic("spec") }
func Str(name string) string    { panic("spec") }

// Chars is an arbitrary string of n ASCII characters.
func Chars(name string, n int) string { panic("spec") }

// Deep sets how far loop counters are followed in this entry.
func Deep(n int) { panic("spec") }

// StrOf is an arbitrary string made of the given characters.
func StrOf(name, chars string) string   { panic("spec") }
func Regexp(name string) *regexp.Regexp { panic("spec") }

// Many stands for any number of values of one class; values of distinct
// classes are distinct.
func Many[T any](class string) T              { panic("spec") }
func ManyRegexps(class string) *regexp.Regexp { panic("spec") }

// Choose is a nondeterministic choice in [0,n).
func Choose(n int) int { panic("spec") }

// Holds is an uninterpreted predicate.
func Holds(p string, args ...interface{}) bool { panic("spec") }
func IsInt(f float64) bool                     { panic("spec") }
func Divisible(v, m float64) bool              { panic("spec") }
func ValidPattern(s string) bool               { panic("spec") }

func Assert(ok bool, clause string) { panic("spec") }
func Assume(ok bool)                { panic("spec") }
func Reach(label string)            { panic("spec") }
func Clear()                        { panic("spec") }

// Freeze reports any later write to memory reachable from xs.
func Freeze(label string, xs ...interface{}) { panic("spec") }
func Thaw()                                  { panic("spec") }

// List builds a list whose shape is given by '1' (one element) and '+' (one
// or more elements described by one abstract value).
func List[T any](line, shape string, elems ...T) []T { panic("spec") }

// PutMany adds any positive number of entries.
func PutMany[K comparable, T any](m map[K]T, k K, x T) { panic("spec") }

func DeepEq(a, b interface{}) bool { panic("spec") }
func Same(a, b interface{}) bool   { panic("spec") }

// Locks and sharing.
func Held() int        { panic("spec") }
func Share()           { panic("spec") }
func Role(name string) { panic("spec") }
func Unshare()         { panic("spec") }

// External failures.
func Failed(name string) bool { panic("spec") }
func AnyFailure() bool        { panic("spec") }
func ResetFailures()          { panic("spec") }

// Emitted programs.
func Compiles(text string) bool            { panic("spec") }
func RunGenerated()                        { panic("spec") }
func GeneratedVar(name string) interface{} { panic("spec") }

// Texts of the outside world.
func GiveUp(why string)                    { panic("spec") }
func JSON(x interface{}) string            { panic("spec") }
func JSONValue(text string) (string, bool) { panic("spec") }
func TemplateOK(text string) bool          { panic("spec") }

func Trace(xs ...interface{}) { panic("spec") }
