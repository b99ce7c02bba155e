package main

import (
	"fmt"

	"github.com/yaacov/tree-search-language/v5/pkg/walkers/sql"
	"verif/spec5/sqls"
)

func sqlCase(c *Case) string {
	n := c.Tree.node()
	if !sqls.PreWalk(n) {
		return ""
	}
	s, err := sql.Walk(n)
	if !sqls.PostWalk(n, s, err) {
		if s == nil {
			return fmt.Sprintf("the condition of %s is nil, error %v", c.Tree, err)
		}
		t, a, e := s.ToSql()
		return fmt.Sprintf("the condition of %s is %q with %v (%v), error %v", c.Tree, t, a, e, err)
	}
	return ""
}

func sqlSys(try func(*Case) bool) {
	k := func(n *NJ) bool { return try(&Case{Kind: "sql", Tree: n}) }
	ls := gvLits()
	for _, t := range append(append([]string{}, dict.Str...), "", " ", "a.b.c", "a[1]", "é", "?", "??", "'", "' OR 1=1 --", "%", "%s", "%d", "%!s(MISSING)", "_", "5", "NULL", ")") {
		ls = append(ls, lit(sv(t)), id(t))
	}
	for _, v := range numVals {
		if lit(v).F == "$number" {
			ls = append(ls, lit(v))
		}
	}
	ls = append(ls, bin("$add", id("a"), lit(fv(1))), bin("$multiply", lit(fv(2)), bin("$modulo", id("a"), id("b"))), bin("$divide", bin("$subtract", lit(sv("x")), lit(fv(2))), bin("$add", lit(fv(3)), lit(fv(4)))))
	ops := append(append(append([]string{}, compares...), members...), maths...)
	eq := bin("$eq", id("a"), lit(fv(1)))
	for _, l := range append([]*NJ{id("a")}, ls...) {
		if !k(l) {
			return
		}
		for _, o := range []string{"$not", "$exists", "$nexists"} {
			if !k(un(o, l)) || !k(un("$not", un(o, l))) || !k(bin("$and", un(o, l), eq)) || !k(bin("$or", eq, un(o, l))) {
				return
			}
		}
		for _, o := range ops {
			for _, r := range ls {
				if !k(bin(o, l, r)) || !k(bin(o, l, list(r, lit(sv("z"))))) || !k(bin(o, l, list(lit(fv(7)), r))) || !k(bin(o, l, list(r))) || !k(bin(o, l, list(r, r, lit(fv(3))))) || !k(un("$not", bin(o, l, r))) || !k(bin("$and", bin(o, l, r), eq)) || !k(bin("$or", eq, bin(o, l, r))) {
					return
				}
			}
			if !k(bin(o, l, list())) || !k(bin("$and", bin(o, l, list()), eq)) {
				return
			}
		}
	}
	for d := 1; d < 40; d++ {
		a, b := eq, eq
		for i := 0; i < d; i++ {
			x := bin("$lt", id("b"), lit(fv(float64(i))))
			a, b = bin([]string{"$and", "$or"}[i%2], a, x), bin([]string{"$and", "$or"}[i/2%2], x, b)
			if i%5 == 0 {
				b = un("$not", b)
			}
		}
		if !k(a) || !k(b) {
			return
		}
	}
	for m := 3; m < 70; m++ {
		var xs []*NJ
		for i := 0; i < m; i++ {
			xs = append(xs, []*NJ{lit(fv(float64(i))), lit(sv(fmt.Sprint("s", i)))}[i%2])
		}
		if !k(bin("$in", id("a"), list(xs...))) || !k(bin("$nin", bin("$add", id("a"), lit(fv(-1))), list(xs...))) {
			return
		}
	}
}

func init() {
	kinds["sql"] = sqlCase
	props["Q51"] = &prop{sys: sqlSys, rnd: func() *Case { return &Case{Kind: "sql", Tree: rcond(1 + rng.Intn(4))} }}
}
