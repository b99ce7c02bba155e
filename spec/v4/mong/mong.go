// Package mong is the contract of the v4 mongo walker (pkg/walkers/mongo). spec/v5 is what it is made of
// the contract of the v4 walker of it.
package mong

import (
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"

	"github.com/yaacov/tree-search-language/v4/pkg/tsl"
	"verif/gh"
	"verif/spec4/sem"
)

// Orders holds of the comparisons that have a MongoDB counterpart of the same name.
func Orders(f string) bool {
	return f == "$eq" || f == "$ne" || f == "$lt" || f == "$lte" || f == "$gt" || f == "$gte"
}

// WF holds of the trees ParseTSL builds.
func WF(n tsl.Node) bool {
	switch n.Func {
	case "$and", "$or":
		l, ok1 := n.Left.(tsl.Node)
		r, ok2 := n.Right.(tsl.Node)
		return ok1 && ok2 && WF(l) && WF(r)
	case "$not", "$exists", "$nexists":
		l, ok := n.Left.(tsl.Node)
		return ok && Side(l) && n.Right == nil
	}
	if sem.Compares(n.Func) {
		l, ok1 := n.Left.(tsl.Node)
		r, ok2 := n.Right.(tsl.Node)
		return ok1 && ok2 && Side(l) && Side(r) && r.Func != "$array"
	}
	if sem.Members(n.Func) {
		l, ok1 := n.Left.(tsl.Node)
		r, ok2 := n.Right.(tsl.Node)
		if !ok1 || !ok2 || !Side(l) || r.Func != "$array" || r.Left != nil {
			return false
		}
		a, ok := r.Right.([]tsl.Node)
		if !ok || (n.Func == "$between" || n.Func == "$nbetween") && len(a) != 2 {
			return false
		}
		return gh.Forall(len(a), func(i int) bool { return sem.Literal(a[i]) })
	}
	return true
}

// Side holds of the sides of a condition: what is in an identifier or a literal.
func Side(n tsl.Node) bool {
	switch n.Func {
	case "$ident", "$string", "$number", "$boolean", "$date", "$null":
		return sem.Item(n)
	}
	return true
}

// Same holds of the value of a literal and the value in a document.
func Same(lit, x interface{}) bool {
	switch a := lit.(type) {
	case nil:
		return x == nil
	case string:
		b, ok := x.(string)
		return ok && a == b
	case float64:
		b, ok := x.(float64)
		return ok && (a == b || a != a && b != b)
	case bool:
		b, ok := x.(bool)
		return ok && a == b
	case time.Time:
		b, ok := x.(time.Time)
		return ok && a.Equal(b)
	}
	return false
}

// Pattern holds of a pattern in a document.
func Pattern(lit, x interface{}) bool {
	s, ok1 := lit.(string)
	r, ok2 := x.(primitive.Regex)
	return ok1 && ok2 && r.Pattern == s && r.Options == ""
}

// One holds of a document {f: lit}.
func One(x interface{}, f string, lit interface{}) bool {
	d, ok := x.(bson.D)
	return ok && len(d) == 1 && d[0].Key == f && Same(lit, d[0].Value)
}

// Field holds of a document {key: {f: lit}}.
func Field(x interface{}, key string, f string, lit interface{}) bool {
	d, ok := x.(bson.D)
	return ok && len(d) == 1 && d[0].Key == key && One(d[0].Value, f, lit)
}

// Value holds of literals that have a value.
func Value(n tsl.Node) bool {
	return n.Func == "$string" || n.Func == "$number" || n.Func == "$null" || sem.Full && (n.Func == "$boolean" || n.Func == "$date")
}

// Doc holds of the trees and documents that mean the same.
func Doc(n tsl.Node, b bson.D) bool {
	if len(b) != 1 {
		return false
	}
	switch n.Func {
	case "$and", "$or":
		l, ok1 := n.Left.(tsl.Node)
		r, ok2 := n.Right.(tsl.Node)
		a, ok3 := b[0].Value.(bson.A)
		if !ok1 || !ok2 || !ok3 || b[0].Key != n.Func || len(a) != 2 {
			return false
		}
		x, ok4 := a[0].(bson.D)
		y, ok5 := a[1].(bson.D)
		return ok4 && ok5 && Doc(l, x) && Doc(r, y)
	}
	id, ok := n.Left.(tsl.Node)
	if !ok || id.Func != "$ident" {
		return false
	}
	key, ok := id.Left.(string)
	if !ok {
		return false
	}
	switch n.Func {
	case "$exists", "$nexists":
		return b[0].Key == key && One(b[0].Value, "$exists", n.Func == "$exists")
	}
	r, ok := n.Right.(tsl.Node)
	if !ok {
		return false
	}
	switch n.Func {
	case "$eq", "$ne", "$lt", "$lte", "$gt", "$gte":
		return b[0].Key == key && Value(r) && One(b[0].Value, n.Func, r.Left)
	case "$regex":
		return b[0].Key == key && r.Func == "$string" && Pattern(r.Left, b[0].Value)
	case "$nregex":
		d, ok := b[0].Value.(bson.D)
		return b[0].Key == key && r.Func == "$string" && ok && len(d) == 1 && d[0].Key == "$not" && Pattern(r.Left, d[0].Value)
	}
	l, ok := r.Right.([]tsl.Node)
	if !ok || r.Func != "$array" {
		return false
	}
	switch n.Func {
	case "$in", "$nin":
		d, ok := b[0].Value.(bson.D)
		if !ok || b[0].Key != key || len(d) != 1 || d[0].Key != n.Func {
			return false
		}
		v, ok := d[0].Value.([]interface{})
		return ok && len(v) == len(l) && gh.Forall(len(l), func(i int) bool { return Same(l[i].Left, v[i]) })
	case "$between", "$nbetween":
		a, ok := b[0].Value.(bson.A)
		if !ok || len(a) != 2 || len(l) != 2 {
			return false
		}
		if n.Func == "$between" {
			return b[0].Key == "$and" && Field(a[0], key, "$gte", l[0].Left) && Field(a[1], key, "$lte", l[1].Left)
		}
		return b[0].Key == "$or" && Field(a[0], key, "$lt", l[0].Left) && Field(a[1], key, "$gt", l[1].Left)
	}
	return false
}

// Plain holds of the literals that may be in a list.
func Plain(n tsl.Node) bool { return n.Func == "$string" || n.Func == "$number" }

// Expressible holds of the trees a document is required for.
func Expressible(n tsl.Node) bool {
	switch n.Func {
	case "$and", "$or":
		l, ok1 := n.Left.(tsl.Node)
		r, ok2 := n.Right.(tsl.Node)
		return ok1 && ok2 && Expressible(l) && Expressible(r)
	}
	id, ok := n.Left.(tsl.Node)
	if !ok || id.Func != "$ident" {
		return false
	}
	if n.Func == "$exists" || n.Func == "$nexists" {
		return true
	}
	r, ok := n.Right.(tsl.Node)
	if !ok {
		return false
	}
	if Orders(n.Func) {
		return Value(r)
	}
	if n.Func == "$regex" || n.Func == "$nregex" {
		return r.Func == "$string"
	}
	l, ok := r.Right.([]tsl.Node)
	return ok && sem.Members(n.Func) && r.Func == "$array" && gh.Forall(len(l), func(i int) bool { return Plain(l[i]) })
}

// PreWalk is the precondition of Walk.
func PreWalk(n tsl.Node) bool { return WF(n) }

// PostWalk is the postcondition of Walk.
func PostWalk(n tsl.Node, b bson.D, err error) bool {
	if err != nil {
		return !Expressible(n)
	}
	return Doc(n, b)
}
