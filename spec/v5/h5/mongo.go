package main

import (
	"fmt"

	"github.com/yaacov/tree-search-language/v5/pkg/walkers/mongo"
	"verif/spec5/mong"
)

func mongoCase(c *Case) string {
	n := c.Tree.node()
	if !mong.PreWalk(n) {
		return ""
	}
	b, err := mongo.Walk(n)
	if !mong.PostWalk(n, b, err) {
		return fmt.Sprintf("the filter of %s is %v, error %v", c.Tree, b, err)
	}
	return ""
}

func mongoSys(try func(*Case) bool) {
	k := func(n *NJ) bool { return try(&Case{Kind: "mongo", Tree: n}) }
	ls := gvLits()
	for _, t := range append(append([]string{}, dict.Str...), "", " ", "$eq", "a.b.c", "a[1]", "\x00", "é", "true", "(", "^a.*$", "/x/i", "%", "_", "5") {
		ls = append(ls, lit(sv(t)), id(t))
	}
	for _, v := range numVals {
		if lit(v).F == "$number" {
			ls = append(ls, lit(v))
		}
	}
	ls = append(ls, bin("$add", id("a"), lit(fv(1))), bin("$multiply", lit(fv(2)), bin("$modulo", id("a"), id("b"))))
	ops := append(append(append([]string{}, compares...), members...), maths...)
	eq := bin("$eq", id("a"), lit(fv(1)))
	for _, l := range append([]*NJ{id("a")}, ls...) {
		if !k(l) {
			return
		}
		for _, o := range []string{"$not", "$exists", "$nexists"} {
			if !k(un(o, l)) || !k(un("$not", un(o, l))) || !k(bin("$and", un(o, l), eq)) || !k(bin("$or", eq, un(o, l))) {
				return
			}
		}
		for _, o := range ops {
			for _, r := range ls {
				if !k(bin(o, l, r)) || !k(bin(o, l, list(r, lit(sv("z"))))) || !k(bin(o, l, list(lit(fv(7)), r))) || !k(bin(o, l, list(r))) || !k(bin(o, l, list(r, r, lit(fv(3))))) || !k(bin("$and", bin(o, l, r), eq)) || !k(bin("$or", eq, bin(o, l, r))) {
					return
				}
			}
			if !k(bin(o, l, list())) {
				return
			}
		}
	}
	for d := 1; d < 40; d++ {
		a, b := eq, eq
		for i := 0; i < d; i++ {
			x := bin("$lt", id("b"), lit(fv(float64(i))))
			a, b = bin([]string{"$and", "$or"}[i%2], a, x), bin([]string{"$and", "$or"}[i/2%2], x, b)
		}
		if !k(a) || !k(b) {
			return
		}
	}
}

func init() {
	kinds["mongo"] = mongoCase
	props["N51"] = &prop{sys: mongoSys, rnd: func() *Case { return &Case{Kind: "mongo", Tree: rcond(1 + rng.Intn(4))} }}
}
