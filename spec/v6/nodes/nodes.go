// Package nodes names the kind and operator codes of the tsl package for the check that they agree with the native codes.
package nodes

import "github.com/yaacov/tree-search-language/v6/pkg/tsl"

// Codes are the operator codes in the order of the native names listed in vc/gotree.py.
func Codes() []int {
	return []int{
		int(tsl.OpLike), int(tsl.OpILike), int(tsl.OpAnd), int(tsl.OpOr), int(tsl.OpBetween), int(tsl.OpIn), int(tsl.OpIs), int(tsl.OpNot),
		int(tsl.OpLen), int(tsl.OpAny), int(tsl.OpAll), int(tsl.OpSum),
		int(tsl.OpPlus), int(tsl.OpMinus), int(tsl.OpStar), int(tsl.OpSlash), int(tsl.OpPercent),
		int(tsl.OpEQ), int(tsl.OpNE), int(tsl.OpLT), int(tsl.OpLE), int(tsl.OpGT), int(tsl.OpGE), int(tsl.OpREQ), int(tsl.OpRNE), int(tsl.OpUMinus),
	}
}

// Kinds are the kind codes in the order of the native names.
func Kinds() []int {
	return []int{
		int(tsl.KindNumericLiteral), int(tsl.KindStringLiteral), int(tsl.KindIdentifier), int(tsl.KindBinaryExpr), int(tsl.KindUnaryExpr),
		int(tsl.KindDateLiteral), int(tsl.KindTimestampLiteral), int(tsl.KindArrayLiteral), int(tsl.KindBooleanLiteral), int(tsl.KindNullLiteral),
	}
}
