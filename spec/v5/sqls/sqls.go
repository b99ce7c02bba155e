// Package sqls is the contract of the v5 SQL walker (pkg/walkers/sql). tools/mkspec4.sh makes
// the contract of the v4 walker of it.
package sqls

import (
	"time"

	sq "github.com/Masterminds/squirrel"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"verif/gh"
	"verif/spec5/sem"
)

// SqlText, SqlArgs and SqlOK are what squirrel makes of a condition.
func SqlText(s sq.Sqlizer) string { t, _, _ := s.ToSql(); return t }

// SqlArgs are the bound arguments of a condition.
func SqlArgs(s sq.Sqlizer) gh.Args { _, a, _ := s.ToSql(); return a }

// SqlOK holds of a condition squirrel accepts.
func SqlOK(s sq.Sqlizer) bool { _, _, err := s.ToSql(); return err == nil }

// Infix is the SQL operator of a comparison.
func Infix(f string) string {
	switch f {
	case "$eq":
		return " = "
	case "$ne":
		return " <> "
	case "$lt":
		return " < "
	case "$lte":
		return " <= "
	case "$gt":
		return " > "
	case "$gte":
		return " >= "
	case "$like":
		return " LIKE "
	case "$ilike":
		return " ILIKE "
	}
	return ""
}

// Arith is the SQL operator of an arithmetic operator.
func Arith(f string) string {
	switch f {
	case "$add":
		return " + "
	case "$subtract":
		return " - "
	case "$multiply":
		return " * "
	case "$divide":
		return " / "
	case "$modulo":
		return " % "
	}
	return ""
}

// Lit holds of the literals there are.
func Lit(n tsl.Node) bool {
	return n.Func == "$string" || n.Func == "$number" || sem.Full && (n.Func == "$boolean" || n.Func == "$date")
}

// Side holds of the operators of what is on a side of a condition: it is no condition itself.
func Side(f string) bool {
	return !sem.Compares(f) && !sem.Members(f) && f != "$and" && f != "$or" && f != "$not" && f != "$exists" && f != "$nexists" && f != "$array"
}

// Typed holds of nodes that are no leaves, and of leaves with a value of their type.
func Typed(n tsl.Node) bool {
	switch n.Func {
	case "$ident", "$string", "$number", "$boolean", "$date":
		return sem.Leaf(n)
	}
	return true
}

// WF holds of the trees ParseTSL builds, and of trees with operators it does not know.
func WF(n tsl.Node) bool {
	switch n.Func {
	case "$ident", "$string", "$number", "$boolean", "$date":
		return Typed(n)
	case "$and", "$or":
		l, ok1 := n.Left.(tsl.Node)
		r, ok2 := n.Right.(tsl.Node)
		return ok1 && ok2 && WF(l) && WF(r)
	case "$not":
		l, ok := n.Left.(tsl.Node)
		return ok && WF(l) && n.Right == nil
	case "$exists", "$nexists":
		l, ok := n.Left.(tsl.Node)
		return ok && WF(l) && Side(l.Func) && n.Right == nil
	}
	if sem.Compares(n.Func) || sem.IsMath(n.Func) {
		l, ok1 := n.Left.(tsl.Node)
		r, ok2 := n.Right.(tsl.Node)
		return ok1 && ok2 && WF(l) && WF(r) && Side(l.Func) && Side(r.Func) && Typed(r)
	}
	if sem.Members(n.Func) {
		l, ok1 := n.Left.(tsl.Node)
		r, ok2 := n.Right.(tsl.Node)
		if !ok1 || !ok2 || !WF(l) || !Side(l.Func) || r.Func != "$array" || r.Left != nil {
			return false
		}
		a, ok := r.Right.([]tsl.Node)
		if !ok || (n.Func == "$between" || n.Func == "$nbetween") && len(a) != 2 {
			return false
		}
		return gh.Forall(len(a), func(i int) bool { return Lit(a[i]) && sem.Literal(a[i]) })
	}
	return true
}

// OK holds of the trees SQL can express.
func OK(n tsl.Node) bool {
	if n.Func == "$ident" || Lit(n) {
		return true
	}
	l, ok := n.Left.(tsl.Node)
	if !ok {
		return false
	}
	switch n.Func {
	case "$not", "$exists", "$nexists", "$in", "$nin", "$between", "$nbetween":
		return OK(l)
	}
	r, ok := n.Right.(tsl.Node)
	return ok && (n.Func == "$and" || n.Func == "$or" || Infix(n.Func) != "" || Arith(n.Func) != "") && OK(l) && OK(r)
}

// logic is squirrel's conjunction: empty conditions are left out.
func logic(l, sep, r string) string {
	if l == "" && r == "" {
		return ""
	}
	if l == "" {
		return "(" + r + ")"
	}
	if r == "" {
		return "(" + l + ")"
	}
	return "(" + l + sep + r + ")"
}

// Text is the SQL of a tree.
func Text(n tsl.Node) string {
	if n.Func == "$ident" {
		return n.Left.(string)
	}
	if Lit(n) {
		return "?"
	}
	l := n.Left.(tsl.Node)
	switch n.Func {
	case "$not":
		return "NOT (" + Text(l) + ")"
	case "$exists":
		return Text(l) + " IS NOT NULL"
	case "$nexists":
		return Text(l) + " IS NULL"
	}
	r := n.Right.(tsl.Node)
	switch n.Func {
	case "$and":
		return logic(Text(l), " AND ", Text(r))
	case "$or":
		return logic(Text(l), " OR ", Text(r))
	case "$between":
		return Text(l) + " BETWEEN ? AND ?"
	case "$nbetween":
		return Text(l) + " NOT BETWEEN ? AND ?"
	case "$in", "$nin":
		m := len(r.Right.([]tsl.Node))
		if n.Func == "$in" {
			if m == 0 {
				return "(1=0)"
			}
			return Text(l) + " IN (" + sq.Placeholders(m) + ")"
		}
		if m == 0 {
			return "(1=1)"
		}
		return Text(l) + " NOT IN (" + sq.Placeholders(m) + ")"
	}
	if Arith(n.Func) != "" {
		return "(" + Text(l) + Arith(n.Func) + Text(r) + ")"
	}
	return Text(l) + Infix(n.Func) + Text(r)
}

// Val is the bound argument of a literal.
func Val(n tsl.Node) gh.Args {
	switch n.Func {
	case "$string":
		return gh.Arg(n.Left.(string))
	case "$number":
		return gh.Arg(n.Left.(float64))
	case "$boolean":
		if n.Left.(bool) {
			return gh.Arg(1)
		}
		return gh.Arg(0)
	}
	return gh.Arg(n.Left.(time.Time).Format(time.RFC3339))
}

// Bound are the bound arguments of a tree.
func Bound(n tsl.Node) gh.Args {
	if n.Func == "$ident" {
		return nil
	}
	if Lit(n) {
		return Val(n)
	}
	l := n.Left.(tsl.Node)
	switch n.Func {
	case "$not", "$exists", "$nexists":
		return Bound(l)
	}
	r := n.Right.(tsl.Node)
	switch n.Func {
	case "$between", "$nbetween":
		a := r.Right.([]tsl.Node)
		return gh.Cat(gh.Cat(Bound(l), Val(a[0])), Val(a[1]))
	case "$in", "$nin":
		a := r.Right.([]tsl.Node)
		if len(a) == 0 {
			return nil
		}
		return gh.Cat(Bound(l), gh.CatSeq(len(a), func(i int) gh.Args { return Val(a[i]) }))
	}
	return gh.Cat(Bound(l), Bound(r))
}

// PreWalk is the precondition of Walk.
func PreWalk(n tsl.Node) bool { return WF(n) }

// PostWalk is the postcondition of Walk.
func PostWalk(n tsl.Node, s sq.Sqlizer, err error) bool {
	if !OK(n) {
		return err != nil
	}
	return err == nil && s != nil && SqlOK(s) && gh.SameArgs(SqlArgs(s), Bound(n)) && SqlText(s) == Text(n) &&
		(SqlText(s) != "" || gh.SameArgs(SqlArgs(s), nil))
}
