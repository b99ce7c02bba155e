// Package sem is the contract of the v4 evaluator (pkg/walkers/semantics). spec/v5 is what it is made of
// the contract of the v4 evaluator of it: there Full is false.
package sem

import (
	"regexp"
	"strings"
	"time"

	"github.com/yaacov/tree-search-language/v4/pkg/tsl"
	"verif/gh"
)

// Full holds of the version with booleans, dates, lists of a record, arithmetic and identifiers on the right.
const Full = false

// EvalFunc looks up a key of a record.
type EvalFunc = func(string) (interface{}, bool)

// Outcomes of an evaluation.
const (
	False = 0
	True  = 1
	Error = 2
	Any   = 3 // not specified
)

// B is the outcome of a condition that holds or not.
func B(b bool) int {
	if b {
		return True
	}
	return False
}

// IsMath holds of the arithmetic operators.
func IsMath(f string) bool {
	return f == "$add" || f == "$subtract" || f == "$multiply" || f == "$divide" || f == "$modulo"
}

// Node is the node in a field of a node.
func Node(x interface{}) (tsl.Node, bool) {
	n, ok := x.(tsl.Node)
	return n, ok
}

// Leaf holds of identifiers and literals.
func Leaf(n tsl.Node) bool {
	switch n.Func {
	case "$ident", "$string":
		_, ok := n.Left.(string)
		return ok && n.Right == nil
	}
	return Literal(n)
}

// Literal holds of literals.
func Literal(n tsl.Node) bool {
	switch n.Func {
	case "$string":
		_, ok := n.Left.(string)
		return ok && n.Right == nil
	case "$number":
		_, ok := n.Left.(float64)
		return ok && n.Right == nil
	case "$boolean":
		_, ok := n.Left.(bool)
		return ok && n.Right == nil
	case "$date":
		_, ok := n.Left.(time.Time)
		return ok && n.Right == nil
	}
	return false
}

// Item holds of what an identifier can stand for.
func Item(n tsl.Node) bool {
	if n.Func == "$array" {
		_, ok := n.Left.([]string)
		return ok && n.Right == nil
	}
	if n.Func == "$null" {
		return n.Left == nil && n.Right == nil
	}
	return Leaf(n)
}

// Operand holds of the sides of a condition.
func Operand(n tsl.Node) bool {
	if IsMath(n.Func) {
		l, ok1 := n.Left.(tsl.Node)
		r, ok2 := n.Right.(tsl.Node)
		return ok1 && ok2 && (Leaf(l) || IsMath(l.Func)) && (Leaf(r) || IsMath(r.Func))
	}
	return Item(n)
}

// Compares holds of the operators between two values.
func Compares(f string) bool {
	return f == "$eq" || f == "$ne" || f == "$lt" || f == "$lte" || f == "$gt" || f == "$gte" ||
		f == "$regex" || f == "$nregex" || f == "$like" || f == "$ilike"
}

// Members holds of the operators between a value and a list of literals.
func Members(f string) bool {
	return f == "$in" || f == "$nin" || f == "$between" || f == "$nbetween"
}

// Condition holds of the operators of conditions.
func Condition(f string) bool {
	return Compares(f) || Members(f) || f == "$and" || f == "$or" || f == "$not" || f == "$exists" || f == "$nexists"
}

// WF holds of conditions.
func WF(n tsl.Node) bool {
	l, ok := n.Left.(tsl.Node)
	if !ok {
		return false
	}
	switch n.Func {
	case "$and", "$or":
		r, ok := n.Right.(tsl.Node)
		return ok && Condition(l.Func) && Condition(r.Func) && WF(l) && WF(r)
	case "$not":
		return n.Right == nil && Condition(l.Func) && WF(l)
	case "$exists", "$nexists":
		return n.Right == nil && Operand(l)
	}
	r, ok := n.Right.(tsl.Node)
	if !ok || !Operand(l) {
		return false
	}
	if Compares(n.Func) {
		return Operand(r) && r.Func != "$array"
	}
	a, ok := r.Right.([]tsl.Node)
	if !Members(n.Func) || r.Func != "$array" || r.Left != nil || !ok {
		return false
	}
	if (n.Func == "$between" || n.Func == "$nbetween") && len(a) != 2 {
		return false
	}
	return gh.Forall(len(a), func(i int) bool { return Literal(a[i]) })
}

// Value is what an operand stands for in a record: nil, a string, a number, a
// boolean, a date or a list of strings; !ok is an error.
func Value(n tsl.Node, eval EvalFunc) (v interface{}, ok bool) {
	if !IsMath(n.Func) {
		return One(n, eval)
	}
	if !Full {
		return nil, false
	}
	l, _ := n.Left.(tsl.Node)
	r, _ := n.Right.(tsl.Node)
	a, ok1 := Number(l, eval)
	b, ok2 := Number(r, eval)
	if !ok1 || !ok2 {
		return nil, false
	}
	if a == nil || b == nil {
		return nil, true
	}
	if n.Func == "$modulo" {
		return nil, false
	}
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if !ok1 || !ok2 {
		return nil, false
	}
	switch n.Func {
	case "$add":
		return x + y, true
	case "$subtract":
		return x - y, true
	case "$multiply":
		return x * y, true
	}
	return x / y, true
}

// Number is what an operand of an arithmetic operator stands for; arithmetic of arithmetic is not evaluated.
func Number(n tsl.Node, eval EvalFunc) (v interface{}, ok bool) {
	if IsMath(n.Func) {
		return false, true
	}
	return One(n, eval)
}

// One is what an identifier or a literal stands for.
func One(n tsl.Node, eval EvalFunc) (v interface{}, ok bool) {
	if n.Func != "$ident" {
		return n.Left, true
	}
	s, _ := n.Left.(string)
	x, _ := eval(s)
	switch y := x.(type) {
	case nil:
		return nil, true
	case string:
		return y, true
	case bool:
		if !Full {
			if y {
				return "true", true
			}
			return "false", true
		}
		return y, true
	case time.Time:
		return y, Full
	case []string:
		return y, Full
	case float64:
		return y, true
	case float32:
		return float64(y), true
	case int:
		return float64(y), true
	case int32:
		return float64(y), true
	case int64:
		return float64(y), true
	case uint:
		return float64(y), true
	case uint32:
		return float64(y), true
	case uint64:
		return float64(y), true
	}
	return nil, false
}

// Order is what an operator means given which of = < > holds.
func Order(f string, eq, lt, gt bool) int {
	switch f {
	case "$eq":
		return B(eq)
	case "$ne":
		return B(!eq)
	case "$lt":
		return B(lt)
	case "$lte":
		return B(lt || eq)
	case "$gt":
		return B(gt)
	case "$gte":
		return B(gt || eq)
	}
	return Error
}

// Like is what LIKE means; flags are those of ILIKE.
func Like(flags, s, p string) int {
	q := regexp.QuoteMeta(p)
	q = strings.ReplaceAll(q, "%", ".*")
	q = strings.ReplaceAll(q, "_", ".")
	m, err := regexp.MatchString(flags+"^"+q+"$", s)
	if err != nil { // a pattern that is not UTF-8
		return Error
	}
	return B(m)
}

// Compare is what an operator between two values means.
func Compare(f string, l, r interface{}) int {
	if l == nil || r == nil {
		return False
	}
	switch x := l.(type) {
	case string:
		y, ok := r.(string)
		if !ok {
			return Error
		}
		switch f {
		case "$like":
			return Like("(?s)", x, y)
		case "$ilike":
			return Like("(?i)(?s)", x, y)
		case "$regex", "$nregex":
			m, err := regexp.MatchString(y, x)
			if err != nil {
				return Error
			}
			return B(m == (f == "$regex"))
		}
		return Order(f, x == y, x < y, y < x)
	case float64:
		y, ok := r.(float64)
		if !ok {
			return Error
		}
		return Order(f, x == y, x < y, y < x)
	case time.Time:
		y, ok := r.(time.Time)
		if !ok {
			return Error
		}
		return Order(f, x.Equal(y), x.Before(y), y.Before(x))
	case bool:
		if f != "$eq" && f != "$ne" {
			switch r.(type) {
			case bool, string, float64:
				return Error
			}
		}
		switch y := r.(type) {
		case bool:
			return B((x == y) == (f == "$eq"))
		case float64:
			return B((x == (y != 0)) == (f == "$eq"))
		case string:
			if y == "true" || y == "TRUE" || y == "True" || y == "t" || y == "T" {
				return B(x == (f == "$eq"))
			}
			if y == "false" || y == "FALSE" || y == "False" || y == "f" || y == "F" {
				return B(x == (f == "$ne"))
			}
			return Any
		}
	}
	return Error
}

// Member is what IN, NOT IN, BETWEEN and NOT BETWEEN mean.
func Member(f string, l interface{}, a []tsl.Node) int {
	if l == nil {
		return False
	}
	in := f == "$in" || f == "$nin"
	yes := f == "$in" || f == "$between"
	switch x := l.(type) {
	case string:
		if in {
			if gh.Exists(len(a), func(i int) bool { _, ok := a[i].Left.(string); return !ok }) {
				return Error
			}
			return B(gh.Exists(len(a), func(i int) bool { s, _ := a[i].Left.(string); return x == s }) == yes)
		}
		lo, ok1 := a[0].Left.(string)
		hi, ok2 := a[1].Left.(string)
		if !ok1 || !ok2 {
			return Error
		}
		return B((lo <= x && x < hi) == yes)
	case float64:
		if in {
			if gh.Exists(len(a), func(i int) bool { _, ok := a[i].Left.(float64); return !ok }) {
				return Error
			}
			return B(gh.Exists(len(a), func(i int) bool { s, _ := a[i].Left.(float64); return x == s }) == yes)
		}
		lo, ok1 := a[0].Left.(float64)
		hi, ok2 := a[1].Left.(float64)
		if !ok1 || !ok2 {
			return Error
		}
		return B((lo <= x && x < hi) == yes)
	case time.Time:
		if in {
			if gh.Exists(len(a), func(i int) bool { _, ok := a[i].Left.(time.Time); return !ok }) {
				return Error
			}
			return B(gh.Exists(len(a), func(i int) bool { s, _ := a[i].Left.(time.Time); return x.Equal(s) }) == yes)
		}
		lo, ok1 := a[0].Left.(time.Time)
		hi, ok2 := a[1].Left.(time.Time)
		if !ok1 || !ok2 {
			return Error
		}
		return B((!x.Before(lo) && x.Before(hi)) == yes)
	case []string:
		if !in || gh.Exists(len(a), func(i int) bool { _, ok := a[i].Left.(string); return !ok }) {
			return Error
		}
		return B(gh.Exists(len(a), func(i int) bool {
			s, _ := a[i].Left.(string)
			return gh.Exists(len(x), func(j int) bool { return x[j] == s })
		}) == yes)
	}
	return Error
}

// Cond is the outcome of a condition that is no AND, OR or NOT.
func Cond(n tsl.Node, eval EvalFunc) int {
	l, _ := n.Left.(tsl.Node)
	v, ok := Value(l, eval)
	if !ok {
		return Error
	}
	switch n.Func {
	case "$exists":
		return B(v != nil)
	case "$nexists":
		return B(v == nil)
	}
	r, _ := n.Right.(tsl.Node)
	if !Full {
		switch v.(type) {
		case nil:
			return False
		case string, float64:
		default:
			return Error
		}
	}
	if Compares(n.Func) {
		w, ok := Right(r, eval)
		if !ok {
			return Error
		}
		return Compare(n.Func, v, w)
	}
	a, _ := r.Right.([]tsl.Node)
	return Member(n.Func, v, a)
}

// Right is what the right side of a comparison stands for.
func Right(n tsl.Node, eval EvalFunc) (interface{}, bool) {
	if !Full && (n.Func == "$ident" || n.Func == "$null") {
		return nil, false
	}
	v, ok := Value(n, eval)
	if _, list := v.([]string); list {
		return nil, false
	}
	return v, ok
}

// Res is the outcome of a condition.
func Res(n tsl.Node, eval EvalFunc) int {
	switch n.Func {
	case "$and", "$or":
		l, _ := n.Left.(tsl.Node)
		r, _ := n.Right.(tsl.Node)
		a := Res(l, eval)
		b := Res(r, eval)
		if a == Any || b == Any {
			return Any
		}
		if a == Error || b == Error {
			return Error
		}
		if n.Func == "$and" {
			return B(a == True && b == True)
		}
		return B(a == True || b == True)
	case "$not":
		l, _ := n.Left.(tsl.Node)
		a := Res(l, eval)
		if a == Any || a == Error {
			return a
		}
		return B(a != True)
	}
	return Cond(n, eval)
}

// PreIdent is the precondition of evalIdentNode.
func PreIdent(n tsl.Node, eval EvalFunc) bool {
	_, ok := n.Left.(string)
	return n.Func == "$ident" && ok
}

// PostIdent is the postcondition of evalIdentNode: a node that stands for the value of the identifier.
func PostIdent(n tsl.Node, eval EvalFunc, r tsl.Node, err error) bool {
	v, ok := One(n, eval)
	if !ok {
		return err != nil
	}
	return err == nil && Item(r) && r.Func != "$ident" && gh.Same(r.Left, v)
}

// PostLeft is the postcondition of handleIdent of v4: the condition with the left identifier replaced.
func PostLeft(n tsl.Node, eval EvalFunc, r tsl.Node, err error) bool {
	l, _ := n.Left.(tsl.Node)
	v, ok := One(l, eval)
	if !ok {
		return err != nil
	}
	x, isnode := r.Left.(tsl.Node)
	return err == nil && r.Func == n.Func && gh.Same(r.Right, n.Right) && isnode && Item(x) && x.Func != "$ident" && x.Func != "$array" && gh.Same(x.Left, v)
}

// PreLeft is the precondition of handleIdent of v4.
func PreLeft(n tsl.Node, eval EvalFunc) bool {
	l, ok := n.Left.(tsl.Node)
	return ok && PreIdent(l, eval)
}

// PostContains is the postcondition of contains.
func PostContains(a []string, x string, r bool) bool {
	return r == gh.Exists(len(a), func(i int) bool { return a[i] == x })
}

// PreMath is the precondition of handleMathOp.
func PreMath(n tsl.Node, eval EvalFunc) bool { return IsMath(n.Func) && Operand(n) }

// PostMath is the postcondition of handleMathOp: a node that stands for the value of the expression.
func PostMath(n tsl.Node, eval EvalFunc, r tsl.Node, err error) bool {
	v, ok := Value(n, eval)
	if !ok {
		return err != nil
	}
	return err == nil && Item(r) && r.Func != "$ident" && r.Func != "$array" && gh.Same(r.Left, v)
}

// PreWalk is the precondition of Walk.
func PreWalk(n tsl.Node, eval EvalFunc) bool { return WF(n) }

// PostWalk is the postcondition of Walk.
func PostWalk(n tsl.Node, eval EvalFunc, res bool, err error) bool {
	x := Res(n, eval)
	if x == Any {
		return true
	}
	if x == Error {
		return err != nil
	}
	return err == nil && res == (x == True)
}
