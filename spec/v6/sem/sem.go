// Package sem is the contract of the v6 evaluator (pkg/walkers/semantics).
package sem

import (
	"regexp"
	"strings"
	"time"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"verif/gh"
)

// ---- specification functions -------------------------------------------------

// Num is the numeric value of a record value of any Go numeric type.
func Num(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case float32:
		return float64(x), true
	case int:
		return float64(x), true
	case int8:
		return float64(x), true
	case int16:
		return float64(x), true
	case int32:
		return float64(x), true
	case int64:
		return float64(x), true
	case uint:
		return float64(x), true
	case uint8:
		return float64(x), true
	case uint16:
		return float64(x), true
	case uint32:
		return float64(x), true
	case uint64:
		return float64(x), true
	}
	return 0, false
}

// Date is the instant denoted by a time value or a date string.
func Date(v interface{}) (time.Time, bool) {
	if t, ok := v.(time.Time); ok {
		return t, true
	}
	if s, ok := v.(string); ok {
		if t, err := time.Parse(time.RFC3339, s); err == nil {
			return t, true
		}
		if t, err := time.Parse("2006-01-02", s); err == nil {
			return t, true
		}
	}
	return time.Time{}, false
}

// Norm is the value of an identifier whose record value is v.
func Norm(v interface{}) interface{} {
	if a, ok := v.([]interface{}); ok {
		return gh.Seq(len(a), func(i int) interface{} { return Norm(a[i]) })
	}
	if d, ok := Date(v); ok {
		return d
	}
	if f, ok := Num(v); ok {
		return f
	}
	return v
}

// Raw holds of values that never arise in an evaluation, because record values are
// normalised: a number that is not a float64, a nil array, an array with a Raw element.
func Raw(v interface{}) bool {
	if a, ok := v.([]interface{}); ok {
		return a == nil || gh.Exists(len(a), func(i int) bool { return Raw(a[i]) })
	}
	if _, ok := v.(float64); ok {
		return false
	}
	_, ok := Num(v)
	return ok
}

// Equal is what = means.
func Equal(l, r interface{}) bool {
	if a, ok := Num(l); ok {
		if b, ok := Num(r); ok {
			return a == b
		}
	}
	if a, ok := Date(l); ok {
		if b, ok := Date(r); ok {
			return a.Equal(b)
		}
	}
	return gh.GoEq(l, r)
}

// Cmp is what < <= > >= mean; !ok is an error.
func Cmp(op tsl.Operator, l, r interface{}) (res, ok bool) {
	a, ln := Num(l)
	b, rn := Num(r)
	if ln && rn {
		switch op {
		case tsl.OpLT:
			return a < b, true
		case tsl.OpLE:
			return a <= b, true
		case tsl.OpGT:
			return b < a, true
		}
		return b <= a, true
	}
	s, ld := Date(l)
	t, rd := Date(r)
	if ld && rd {
		switch op {
		case tsl.OpLT:
			return s.Before(t), true
		case tsl.OpLE:
			return !t.Before(s), true
		case tsl.OpGT:
			return t.Before(s), true
		}
		return !s.Before(t), true
	}
	return false, false
}

// Like is what LIKE means, for strings.
func Like(s, p string) bool {
	q := regexp.QuoteMeta(p)
	q = strings.ReplaceAll(q, "%", ".*")
	q = strings.ReplaceAll(q, "_", ".")
	m, _ := regexp.MatchString("(?s)^"+q+"$", s)
	return m
}

// Singular is the value of `l op r` for an l that is not an array; !ok is an error.
func Singular(op tsl.Operator, l, r interface{}) (res interface{}, ok bool) {
	switch op {
	case tsl.OpEQ:
		return Equal(l, r), true
	case tsl.OpNE:
		return !Equal(l, r), true
	case tsl.OpLT, tsl.OpLE, tsl.OpGT, tsl.OpGE:
		b, ok := Cmp(op, l, r)
		if !ok {
			return nil, false
		}
		return b, true
	case tsl.OpAnd, tsl.OpOr:
		a, ok1 := l.(bool)
		b, ok2 := r.(bool)
		if !ok1 || !ok2 {
			return nil, false
		}
		if op == tsl.OpAnd {
			return a && b, true
		}
		return a || b, true
	case tsl.OpLike, tsl.OpILike, tsl.OpREQ, tsl.OpRNE:
		return Match(op, l, r)
	case tsl.OpIn:
		a, ok := r.([]interface{})
		if !ok {
			return nil, false
		}
		return In(l, a)
	case tsl.OpBetween:
		a, ok := r.([]interface{})
		if !ok || len(a) != 2 {
			return nil, false
		}
		lo, ok1 := Cmp(tsl.OpGE, l, a[0])
		hi, ok2 := Cmp(tsl.OpLE, l, a[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		return lo && hi, true
	case tsl.OpIs:
		return r == nil && l == nil, true
	case tsl.OpPlus, tsl.OpMinus, tsl.OpStar, tsl.OpSlash, tsl.OpPercent:
		return Arith(op, l, r)
	}
	return nil, false
}

// Match is what LIKE, ILIKE, ~= and ~! mean.
func Match(op tsl.Operator, l, r interface{}) (interface{}, bool) {
	s, ok1 := l.(string)
	p, ok2 := r.(string)
	if !ok1 || !ok2 {
		return nil, false
	}
	switch op {
	case tsl.OpLike:
		return Like(s, p), true
	case tsl.OpILike:
		return Like(strings.ToLower(s), strings.ToLower(p)), true
	}
	m, err := regexp.MatchString(p, s)
	if err != nil {
		return nil, false
	}
	if op == tsl.OpRNE {
		return !m, true
	}
	return m, true
}

// In is what IN means.
func In(l interface{}, a []interface{}) (interface{}, bool) {
	switch l.(type) {
	case nil:
		return false, true
	case string, float64, time.Time, bool:
		return gh.Exists(len(a), func(i int) bool { return Equal(l, a[i]) }), true
	}
	return nil, false
}

// Arith is what + - * / % mean.
func Arith(op tsl.Operator, l, r interface{}) (interface{}, bool) {
	a, ok1 := Num(l)
	b, ok2 := Num(r)
	if !ok1 || !ok2 {
		return nil, false
	}
	switch op {
	case tsl.OpPlus:
		return a + b, true
	case tsl.OpMinus:
		return a - b, true
	case tsl.OpStar:
		return a * b, true
	case tsl.OpSlash:
		if b == 0 {
			return nil, false
		}
		return a / b, true
	}
	if int64(b) == 0 {
		return nil, false
	}
	return float64(int64(a) % int64(b)), true
}

// ZeroDiv holds when `l op r` divides by zero.
func ZeroDiv(op tsl.Operator, l, r interface{}) bool {
	_, ok1 := Num(l)
	b, ok2 := Num(r)
	if !ok1 || !ok2 {
		return false
	}
	if op == tsl.OpSlash {
		return b == 0
	}
	return op == tsl.OpPercent && int64(b) == 0
}

// Binary is the value of `l op r`, broadcasting over an array on the left.
func Binary(op tsl.Operator, l, r interface{}) (interface{}, bool) {
	a, ok := l.([]interface{})
	if !ok {
		return Singular(op, l, r)
	}
	ok = gh.Forall(len(a), func(i int) bool {
		_, ok := Binary(op, a[i], r)
		return ok
	})
	if !ok {
		return nil, false
	}
	return gh.Seq(len(a), func(i int) interface{} {
		v, _ := Binary(op, a[i], r)
		return v
	}), true
}

// BinaryErr holds of the errors `l op r` may report.
func BinaryErr(op tsl.Operator, l, r interface{}, err error) bool {
	if err == nil {
		return false
	}
	if a, ok := l.([]interface{}); ok {
		i := gh.First(len(a), func(i int) bool {
			_, ok := Binary(op, a[i], r)
			return !ok
		})
		return i < len(a) && BinaryErr(op, a[i], r, err)
	}
	_, zero := err.(tsl.DivisionByZeroError)
	return zero == ZeroDiv(op, l, r)
}

// Unary is the value of `op r`.
func Unary(op tsl.Operator, r interface{}) (interface{}, bool) {
	a, isArr := r.([]interface{})
	switch op {
	case tsl.OpAny:
		if !isArr {
			return nil, false
		}
		return gh.Exists(len(a), func(i int) bool { return IsTrue(a[i]) }), true
	case tsl.OpAll:
		if !isArr {
			return nil, false
		}
		return len(a) > 0 && gh.Forall(len(a), func(i int) bool { return IsTrue(a[i]) }), true
	case tsl.OpLen:
		if !isArr {
			return nil, false
		}
		return float64(len(a)), true
	case tsl.OpSum:
		if !isArr || !gh.Forall(len(a), func(i int) bool { _, ok := Num(a[i]); return ok }) {
			return nil, false
		}
		return gh.Fold(len(a), 0.0, func(s float64, i int) float64 {
			x, _ := Num(a[i])
			return s + x
		}), true
	}
	if !isArr {
		return UnarySingular(op, r)
	}
	if !gh.Forall(len(a), func(i int) bool { _, ok := UnarySingular(op, a[i]); return ok }) {
		return nil, false
	}
	return gh.Seq(len(a), func(i int) interface{} {
		v, _ := UnarySingular(op, a[i])
		return v
	}), true
}

// UnarySingular is the value of NOT and unary minus on a value that is not an array.
func UnarySingular(op tsl.Operator, r interface{}) (interface{}, bool) {
	switch op {
	case tsl.OpNot:
		b, ok := r.(bool)
		if !ok {
			return nil, false
		}
		return !b, true
	case tsl.OpUMinus:
		x, ok := Num(r)
		if !ok {
			return nil, false
		}
		return -x, true
	}
	return nil, false
}

// IsTrue holds of the Boolean true only.
func IsTrue(v interface{}) bool {
	b, ok := v.(bool)
	return ok && b
}

// Eval is the value of the tree n over the record eval.
func Eval(n *tsl.TSLNode, eval func(string) (interface{}, bool)) (interface{}, bool) {
	if n == nil {
		return nil, true
	}
	switch n.Type() {
	case tsl.KindIdentifier:
		v, ok := eval(n.Value().(string))
		if !ok {
			return nil, false
		}
		return Norm(v), true
	case tsl.KindBinaryExpr:
		e := n.Value().(tsl.TSLExpressionOp)
		l, ok1 := Eval(e.Left, eval)
		r, ok2 := Eval(e.Right, eval)
		if !ok1 || !ok2 {
			return nil, false
		}
		return Binary(e.Operator, l, r)
	case tsl.KindUnaryExpr:
		e := n.Value().(tsl.TSLExpressionOp)
		r, ok := Eval(e.Right, eval)
		if !ok {
			return nil, false
		}
		return Unary(e.Operator, r)
	case tsl.KindArrayLiteral:
		a := n.Value().(tsl.TSLArrayLiteral)
		if !gh.Forall(len(a.Values), func(i int) bool { _, ok := Eval(a.Values[i], eval); return ok }) {
			return nil, false
		}
		return gh.Seq(len(a.Values), func(i int) interface{} {
			v, _ := Eval(a.Values[i], eval)
			return v
		}), true
	case tsl.KindNullLiteral:
		return nil, true
	}
	return n.Value(), true
}

// EvalErr holds of the errors the evaluation of n may report.
func EvalErr(n *tsl.TSLNode, eval func(string) (interface{}, bool), err error) bool {
	if err == nil {
		return false
	}
	switch n.Type() {
	case tsl.KindIdentifier:
		k, ok := err.(tsl.KeyNotFoundError)
		return ok && k.Key == n.Value().(string)
	case tsl.KindBinaryExpr:
		e := n.Value().(tsl.TSLExpressionOp)
		l, ok1 := Eval(e.Left, eval)
		r, ok2 := Eval(e.Right, eval)
		if ok1 && ok2 {
			return BinaryErr(e.Operator, l, r, err)
		}
		return !ok1 && EvalErr(e.Left, eval, err) || !ok2 && EvalErr(e.Right, eval, err)
	case tsl.KindUnaryExpr:
		e := n.Value().(tsl.TSLExpressionOp)
		if _, ok := Eval(e.Right, eval); !ok {
			return EvalErr(e.Right, eval, err)
		}
		return true
	case tsl.KindArrayLiteral:
		a := n.Value().(tsl.TSLArrayLiteral)
		return gh.Exists(len(a.Values), func(i int) bool {
			_, ok := Eval(a.Values[i], eval)
			return !ok && EvalErr(a.Values[i], eval, err)
		})
	}
	return true
}

// ---- contracts ----------------------------------------------------------------

// PostWalk is the postcondition of Walk (and of the handle* functions it is made of).
func PostWalk(n *tsl.TSLNode, eval func(string) (interface{}, bool), ret interface{}, err error) bool {
	v, ok := Eval(n, eval)
	if !ok {
		return err != nil && EvalErr(n, eval, err)
	}
	return err == nil && gh.Same(ret, v) && !Raw(ret)
}

// PostBinary is the postcondition of evaluateBinaryExpression.
func PostBinary(op tsl.Operator, l, r interface{}, ret interface{}, err error) bool {
	if Raw(l) || Raw(r) {
		return true
	}
	v, ok := Binary(op, l, r)
	if !ok {
		return err != nil && BinaryErr(op, l, r, err)
	}
	return err == nil && gh.Same(ret, v) && !Raw(ret)
}

// PostProcess is the postcondition of processValue.
func PostProcess(v interface{}, ret interface{}, err error) bool {
	return err == nil && gh.Same(ret, Norm(v)) && !Raw(ret)
}

// ---- cases: which part of a contract belongs to which property ------------------

func OpCompare(op tsl.Operator) bool {
	return op == tsl.OpEQ || op == tsl.OpNE || op == tsl.OpLT || op == tsl.OpLE || op == tsl.OpGT || op == tsl.OpGE
}
func OpLogic(op tsl.Operator) bool {
	return op == tsl.OpAnd || op == tsl.OpOr || op == tsl.OpIs
}
func OpMember(op tsl.Operator) bool { return op == tsl.OpIn || op == tsl.OpBetween }
func OpMatch(op tsl.Operator) bool {
	return op == tsl.OpLike || op == tsl.OpILike || op == tsl.OpREQ || op == tsl.OpRNE
}
func OpArith(op tsl.Operator) bool {
	return op == tsl.OpPlus || op == tsl.OpMinus || op == tsl.OpStar || op == tsl.OpSlash || op == tsl.OpPercent
}

// PostUnary is the postcondition of evaluateUnaryExpression.
func PostUnary(op tsl.Operator, r interface{}, ret interface{}, err error) bool {
	if Raw(r) {
		return true
	}
	v, ok := Unary(op, r)
	if !ok {
		return err != nil
	}
	return err == nil && gh.Same(ret, v) && !Raw(ret)
}
