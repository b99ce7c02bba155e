// Package marsh specifies MarshalJSON and MarshalYAML of v6 (property M01).
package marsh

import (
	"github.com/yaacov/tree-search-language/v6/pkg/tsl"

	"verif/gh"
)

// KindName is the documented name of a kind.
func KindName(k tsl.Kind) string {
	switch k {
	case 0:
		return "NUMBER"
	case 1:
		return "STRING"
	case 2:
		return "IDENTIFIER"
	case 3:
		return "BINARY_EXP"
	case 4:
		return "UNARY_EXP"
	case 5:
		return "DATE"
	case 6:
		return "TIMESTAMP"
	case 7:
		return "ARRAY"
	case 8:
		return "BOOLEAN"
	case 9:
		return "NULL"
	}
	return "UNKNOWN"
}

// OpName is the documented name of an operator.
func OpName(op tsl.Operator) string {
	switch op {
	case 258:
		return "LIKE"
	case 259:
		return "ILIKE"
	case 260:
		return "AND"
	case 261:
		return "OR"
	case 262:
		return "BETWEEN"
	case 263:
		return "IN"
	case 264:
		return "IS"
	case 266:
		return "NOT"
	case 269:
		return "LEN"
	case 270:
		return "ANY"
	case 271:
		return "ALL"
	case 272:
		return "SUM"
	case 278:
		return "ADD"
	case 279:
		return "SUB"
	case 280:
		return "MUL"
	case 281:
		return "DIV"
	case 282:
		return "MOD"
	case 288:
		return "EQ"
	case 289:
		return "NE"
	case 290:
		return "LT"
	case 291:
		return "LE"
	case 292:
		return "GT"
	case 293:
		return "GE"
	case 294:
		return "REQ"
	case 295:
		return "RNE"
	case 296:
		return "NEG"
	}
	return "UNKNOWN"
}

// Enc is the document a tree is marshalled to.
func Enc(n *tsl.TSLNode) gh.J {
	if n == nil {
		return gh.JNull()
	}
	k := gh.JVal(KindName(n.Type()))
	switch n.Type() {
	case tsl.KindBinaryExpr:
		e := n.Value().(tsl.TSLExpressionOp)
		return gh.JObj("left", Enc(e.Left), gh.JObj("operator", gh.JVal(OpName(e.Operator)), gh.JObj("right", Enc(e.Right), gh.JObj("type", k, gh.JEmpty()))))
	case tsl.KindUnaryExpr:
		e := n.Value().(tsl.TSLExpressionOp)
		return gh.JObj("operator", gh.JVal(OpName(e.Operator)), gh.JObj("right", Enc(e.Right), gh.JObj("type", k, gh.JEmpty())))
	case tsl.KindArrayLiteral:
		a := n.Value().(tsl.TSLArrayLiteral)
		return gh.JObj("type", k, gh.JObj("values", gh.JArr(len(a.Values), func(i int) gh.J { return Enc(a.Values[i]) }), gh.JEmpty()))
	}
	return gh.JObj("type", k, gh.JObj("value", gh.JVal(n.Value()), gh.JEmpty()))
}

// OK holds of the trees whose literals JSON can represent.
func OK(n *tsl.TSLNode) bool {
	if n == nil {
		return true
	}
	switch n.Type() {
	case tsl.KindBinaryExpr:
		e := n.Value().(tsl.TSLExpressionOp)
		return OK(e.Left) && OK(e.Right)
	case tsl.KindUnaryExpr:
		return OK(n.Value().(tsl.TSLExpressionOp).Right)
	case tsl.KindArrayLiteral:
		a := n.Value().(tsl.TSLArrayLiteral)
		return gh.Forall(len(a.Values), func(i int) bool { return OK(a.Values[i]) })
	}
	return gh.JOK(n.Value())
}

// PostJSON is the postcondition of MarshalJSON.
func PostJSON(n *tsl.TSLNode, b []byte, err error) bool {
	if !OK(n) {
		return err != nil
	}
	return err == nil && gh.JSame(gh.JSONOf(b), Enc(n))
}

// PostYAML is the postcondition of MarshalYAML.
func PostYAML(n *tsl.TSLNode, v interface{}, err error) bool {
	return err == nil && gh.JSame(gh.YAMLOf(v), Enc(n))
}
