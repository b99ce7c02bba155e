// Package gh holds the logical vocabulary of the contracts in /verif/spec.
//
// A contract is a Go function: a precondition, a postcondition or a
// specification function over the arguments and results of a function of
// /repo. The verification condition generator translates the bodies to logic
// through the same go/ssa front end it uses for the code; the functions below
// are the quantifiers and sequence constructors of that logic, and it gives
// them their mathematical meaning instead of looking at these bodies. The
// bodies make the same contracts executable, so that a counterexample can be
// replayed on the real code.
package gh

import (
	"encoding/json"
	"math"
	"reflect"
	"time"
)

// First is the least i in [0,n) with p(i), or n when there is none.
func First(n int, p func(i int) bool) int {
	for i := 0; i < n; i++ {
		if p(i) {
			return i
		}
	}
	return n
}

// Exists reports whether p(i) for some i in [0,n).
func Exists(n int, p func(i int) bool) bool { return First(n, p) < n }

// Forall reports whether p(i) for every i in [0,n).
func Forall(n int, p func(i int) bool) bool {
	return First(n, func(i int) bool { return !p(i) }) == n
}

// Seq is the sequence f(0), ..., f(n-1).
func Seq[T any](n int, f func(i int) T) []T {
	s := make([]T, n)
	for i := range s {
		s[i] = f(i)
	}
	return s
}

// Fold is f(...f(f(init,0),1)...,n-1).
func Fold[T any](n int, init T, f func(acc T, i int) T) T {
	for i := 0; i < n; i++ {
		init = f(init, i)
	}
	return init
}

// Imp is logical implication.
func Imp(a bool, b bool) bool { return !a || b }

// Same is mathematical equality of values: same dynamic type and same value (executed:
// a NaN is the same as itself, times are the same when they denote the same
// instant, and sequences when they have the same elements).
func Same(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && (math.Float64bits(x) == math.Float64bits(y) || x != x && y != y)
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Same(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

// GoEq is Go's == on interface values where it is defined, and false where it
// would panic.
func GoEq(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if !reflect.ValueOf(a).Comparable() || !reflect.ValueOf(b).Comparable() {
		return false
	}
	return a == b
}

// Rank decreases from a value to the values it contains; it is what recursion
// over record values and trees is measured by. It has no executable meaning.
func Rank(v interface{}) int { return 0 }

// Args is a sequence of bound arguments.
type Args = []interface{}

// Arg is the sequence of one argument.
func Arg(v interface{}) Args { return Args{v} }

// Cat is the concatenation of two sequences; nil is its unit.
func Cat(a, b Args) Args {
	out := append(Args{}, a...)
	return append(out, b...)
}

// CatSeq is f(0), ..., f(n-1) concatenated.
func CatSeq(n int, f func(i int) Args) Args {
	var out Args
	for i := 0; i < n; i++ {
		out = Cat(out, f(i))
	}
	return out
}

// JoinSeq is the strings f(0), ..., f(n-1) with sep between them.
func JoinSeq(n int, sep string, f func(i int) string) string {
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += sep
		}
		s += f(i)
	}
	return s
}

// SameArgs is equality of argument sequences.
func SameArgs(a, b Args) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Same(a[i], b[i]) {
			return false
		}
	}
	return true
}

// J is a JSON or YAML document.
type J = interface{}

// JNull, JEmpty, JVal, JObj and JArr build documents: null, the empty object,
// the document of a literal, an object with one more member (members are added
// in descending order of their names) and an array.
func JNull() J { return nil }

// JEmpty is the object without members.
func JEmpty() J { return map[string]interface{}{} }

// JVal is the document of a Go value.
func JVal(v interface{}) J { return v }

// JObj adds a member to an object.
func JObj(name string, v J, rest J) J {
	m := map[string]interface{}{name: v}
	for k, x := range rest.(map[string]interface{}) {
		m[k] = x
	}
	return m
}

// JArr is the array f(0), ..., f(n-1).
func JArr(n int, f func(i int) J) J { return Seq(n, f) }

// JOK holds of the values JSON can represent.
func JOK(v interface{}) bool { _, err := json.Marshal(v); return err == nil }

func norm(v J) J {
	switch x := v.(type) {
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, y := range x {
			m[k] = norm(y)
		}
		return m
	case []interface{}:
		return Seq(len(x), func(i int) J { return norm(x[i]) })
	case time.Time:
		return x.Format(time.RFC3339Nano)
	case float64:
		return x + 0 // the two zeros are one number
	case int:
		return float64(x)
	case int64:
		return float64(x)
	case uint64:
		return float64(x)
	}
	return v
}

// JSame is equality of documents; a time is the same as its RFC3339 text.
func JSame(a, b J) bool {
	a, b = norm(a), norm(b)
	return same(a, b)
}

func same(a, b J) bool {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			if z, ok := y[k]; !ok || !same(x[k], z) {
				return false
			}
		}
		return true
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return Same(a, b)
}

// JSONOf is the document of a JSON text.
func JSONOf(b []byte) J {
	var v interface{}
	if json.Unmarshal(b, &v) != nil {
		return "not JSON: " + string(b)
	}
	return v
}

// YAMLOf is the document YAML makes of a value; the command that runs the contracts sets it.
var YAMLHook func(v interface{}) J

// YAMLOf is the document of a value handed to the YAML encoder.
func YAMLOf(v interface{}) J { return YAMLHook(v) }
