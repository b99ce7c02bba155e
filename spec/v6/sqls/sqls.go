// Package sqls specifies pkg/walkers/sql of v6 (properties Q01 and Q02).
package sqls

import (
	"time"

	sq "github.com/Masterminds/squirrel"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"

	"verif/gh"
)

// SqlText, SqlArgs and SqlOK are what squirrel makes of a condition.
func SqlText(s sq.Sqlizer) string { t, _, _ := s.ToSql(); return t }

// SqlArgs are the bound arguments of a condition.
func SqlArgs(s sq.Sqlizer) gh.Args { _, a, _ := s.ToSql(); return a }

// SqlOK holds of a condition squirrel accepts.
func SqlOK(s sq.Sqlizer) bool { _, _, err := s.ToSql(); return err == nil }

// Instant is the time of a date or timestamp literal.
func Instant(v interface{}) (time.Time, bool) {
	switch x := v.(type) {
	case time.Time:
		return x, true
	case string:
		t, err := time.Parse("2006-01-02", x)
		return t, err == nil
	}
	return time.Time{}, false
}

// Infix is the SQL operator of a comparison.
func Infix(op tsl.Operator) string {
	switch op {
	case tsl.OpEQ:
		return " = "
	case tsl.OpNE:
		return " != "
	case tsl.OpLT:
		return " < "
	case tsl.OpLE:
		return " <= "
	case tsl.OpGT:
		return " > "
	case tsl.OpGE:
		return " >= "
	case tsl.OpREQ:
		return " REGEXP "
	case tsl.OpLike:
		return " LIKE "
	case tsl.OpILike:
		return " ILIKE "
	}
	return ""
}

// Arith is the SQL operator of an arithmetic operator.
func Arith(op tsl.Operator) string {
	switch op {
	case tsl.OpPlus:
		return " + "
	case tsl.OpMinus:
		return " - "
	case tsl.OpStar:
		return " * "
	case tsl.OpSlash:
		return " / "
	case tsl.OpPercent:
		return " % "
	}
	return ""
}

// Closed holds of a node whose SQL is a unit: an identifier, a literal or something in parentheses.
func Closed(n *tsl.TSLNode) bool {
	if n.Type() != tsl.KindBinaryExpr && n.Type() != tsl.KindUnaryExpr {
		return true
	}
	op := n.Value().(tsl.TSLExpressionOp).Operator
	return Arith(op) != "" || op == tsl.OpAnd || op == tsl.OpOr || op == tsl.OpUMinus
}

// Unit is the text of an operand, in parentheses unless it is a unit already.
func Unit(n *tsl.TSLNode) string {
	if Closed(n) {
		return Text(n)
	}
	return "(" + Text(n) + ")"
}

// logic is squirrel's conjunction: empty conditions are left out.
func logic(l, sep, r string) string {
	if l == "" && r == "" {
		return ""
	}
	if l == "" {
		return "(" + r + ")"
	}
	if r == "" {
		return "(" + l + ")"
	}
	return "(" + l + sep + r + ")"
}

// OK holds of the trees SQL can express.
func OK(n *tsl.TSLNode) bool {
	switch n.Type() {
	case tsl.KindIdentifier, tsl.KindNumericLiteral, tsl.KindStringLiteral, tsl.KindBooleanLiteral, tsl.KindNullLiteral:
		return true
	case tsl.KindDateLiteral, tsl.KindTimestampLiteral:
		_, ok := Instant(n.Value())
		return ok
	case tsl.KindBinaryExpr:
		e := n.Value().(tsl.TSLExpressionOp)
		if e.Operator == tsl.OpIn || e.Operator == tsl.OpBetween {
			if e.Right.Type() != tsl.KindArrayLiteral {
				return false
			}
			a := e.Right.Value().(tsl.TSLArrayLiteral)
			return OK(e.Left) && gh.Forall(len(a.Values), func(i int) bool { return OK(a.Values[i]) }) &&
				(e.Operator == tsl.OpIn || len(a.Values) == 2)
		}
		return OK(e.Left) && OK(e.Right) && (Infix(e.Operator) != "" || Arith(e.Operator) != "" || e.Operator == tsl.OpRNE ||
			e.Operator == tsl.OpAnd || e.Operator == tsl.OpOr || e.Operator == tsl.OpIs)
	case tsl.KindUnaryExpr:
		e := n.Value().(tsl.TSLExpressionOp)
		return OK(e.Right) && (e.Operator == tsl.OpNot || e.Operator == tsl.OpUMinus)
	}
	return false
}

// Text is the SQL of a tree.
func Text(n *tsl.TSLNode) string {
	switch n.Type() {
	case tsl.KindIdentifier:
		return n.Value().(string)
	case tsl.KindNullLiteral:
		return "" // part of IS NULL
	case tsl.KindBinaryExpr:
		e := n.Value().(tsl.TSLExpressionOp)
		switch e.Operator {
		case tsl.OpAnd:
			return logic(Text(e.Left), " AND ", Text(e.Right))
		case tsl.OpOr:
			return logic(Text(e.Left), " OR ", Text(e.Right))
		case tsl.OpIs:
			return Unit(e.Left) + " IS NULL"
		case tsl.OpRNE:
			return "NOT (" + Unit(e.Left) + " REGEXP " + Unit(e.Right) + ")"
		case tsl.OpBetween:
			a := e.Right.Value().(tsl.TSLArrayLiteral)
			return Unit(e.Left) + " BETWEEN " + Unit(a.Values[0]) + " AND " + Unit(a.Values[1])
		case tsl.OpIn:
			a := e.Right.Value().(tsl.TSLArrayLiteral)
			return Unit(e.Left) + " IN (" + gh.JoinSeq(len(a.Values), ",", func(i int) string { return Unit(a.Values[i]) }) + ")"
		}
		if Arith(e.Operator) != "" {
			return "(" + Unit(e.Left) + Arith(e.Operator) + Unit(e.Right) + ")"
		}
		return Unit(e.Left) + Infix(e.Operator) + Unit(e.Right)
	case tsl.KindUnaryExpr:
		e := n.Value().(tsl.TSLExpressionOp)
		if e.Operator == tsl.OpNot {
			return "NOT (" + Text(e.Right) + ")"
		}
		return "-(" + Text(e.Right) + ")"
	}
	return "?"
}

// Bound are the bound arguments of a tree.
func Bound(n *tsl.TSLNode) gh.Args {
	switch n.Type() {
	case tsl.KindNumericLiteral:
		return gh.Arg(n.Value().(float64))
	case tsl.KindStringLiteral:
		return gh.Arg(n.Value().(string))
	case tsl.KindBooleanLiteral:
		if n.Value().(bool) {
			return gh.Arg(1)
		}
		return gh.Arg(0)
	case tsl.KindDateLiteral, tsl.KindTimestampLiteral:
		t, _ := Instant(n.Value())
		return gh.Arg(t.Format("2006-01-02 15:04:05"))
	case tsl.KindBinaryExpr:
		e := n.Value().(tsl.TSLExpressionOp)
		switch e.Operator {
		case tsl.OpIs:
			return Bound(e.Left)
		case tsl.OpIn, tsl.OpBetween:
			a := e.Right.Value().(tsl.TSLArrayLiteral)
			if e.Operator == tsl.OpBetween {
				return gh.Cat(gh.Cat(Bound(e.Left), Bound(a.Values[0])), Bound(a.Values[1]))
			}
			return gh.Cat(Bound(e.Left), gh.CatSeq(len(a.Values), func(i int) gh.Args { return Bound(a.Values[i]) }))
		}
		return gh.Cat(Bound(e.Left), Bound(e.Right))
	case tsl.KindUnaryExpr:
		return Bound(n.Value().(tsl.TSLExpressionOp).Right)
	}
	return nil
}

// PostWalk is the postcondition of Walk.
func PostWalk(n *tsl.TSLNode, s sq.Sqlizer, err error) bool {
	return PostArgs(n, s, err) && PostText(n, s, err)
}

// PostArgs is the part of it that Q01 states.
func PostArgs(n *tsl.TSLNode, s sq.Sqlizer, err error) bool {
	if !OK(n) {
		return err != nil
	}
	return err == nil && s != nil && SqlOK(s) && gh.SameArgs(SqlArgs(s), Bound(n)) &&
		(SqlText(s) != "" || gh.SameArgs(SqlArgs(s), nil))
}

// PostText is the part of it that Q02 states.
func PostText(n *tsl.TSLNode, s sq.Sqlizer, err error) bool {
	if !OK(n) {
		return err != nil
	}
	return err == nil && s != nil && SqlOK(s) && SqlText(s) == Text(n)
}
