// Package models restates library functions that work on memory the analyser
// cannot see, in terms it can.
package models

import "reflect"

func SortSlice(x interface{}, less func(i, j int) bool) {
	rv := reflect.ValueOf(x)
	n := rv.Len()
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			a, b := rv.Index(j).Interface(), rv.Index(j-1).Interface()
			rv.Index(j).Set(reflect.ValueOf(b))
			rv.Index(j - 1).Set(reflect.ValueOf(a))
		}
	}
}

func SliceIsSorted(x interface{}, less func(i, j int) bool) bool {
	n := reflect.ValueOf(x).Len()
	for i := n - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}
