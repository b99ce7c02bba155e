package main

import (
	"fmt"
	"reflect"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/ident"
)

type rejected struct{ n int }

func (e *rejected) Error() string { return fmt.Sprint("rejected call ", e.n) }

// identCase replaces identifiers with a check function that has a state: its answers depend on the calls before.
// Arg "reject" is the number of the call that is rejected.
func identCase(c *Case) string {
	n, same := c.Tree.node(), c.Tree.node()
	mk := func(calls *[]string) func(string) (string, error) {
		return func(s string) (string, error) {
			*calls = append(*calls, s)
			if c.Arg["reject"] == fmt.Sprint(len(*calls)) {
				return "no", &rejected{len(*calls)}
			}
			switch c.Arg["how"] {
			case "same":
				return s, nil
			case "empty":
				return "", nil
			}
			return fmt.Sprintf("%s_%d", s, len(*calls)), nil
		}
	}
	var want, got []string
	spec := mk(&want)
	var walk func(n tsl.Node) (tsl.Node, error)
	walk = func(n tsl.Node) (tsl.Node, error) {
		if n.Func == "$ident" {
			s, err := spec(n.Left.(string))
			return tsl.Node{Func: n.Func, Left: s, Right: n.Right}, err
		}
		if l, ok := n.Left.(tsl.Node); ok {
			x, err := walk(l)
			if err != nil {
				return n, err
			}
			n.Left = x
		}
		if l, ok := n.Right.(tsl.Node); ok {
			x, err := walk(l)
			if err != nil {
				return n, err
			}
			n.Right = x
		}
		return n, nil
	}
	wn, werr := walk(same)
	same = c.Tree.node()
	gn, gerr := ident.Walk(n, mk(&got))
	at := fmt.Sprintf("Walk(%.200q, %v)", c.Text, c.Arg)
	if !reflect.DeepEqual(n, same) {
		return fmt.Sprintf("%s changed its input: %.300q", at, fmt.Sprint(n))
	}
	if werr != nil {
		if gerr == nil || !reflect.DeepEqual(gerr, werr) {
			return fmt.Sprintf("%s gives the error %v, the check function gave %v", at, gerr, werr)
		}
		return ""
	}
	if gerr != nil {
		return fmt.Sprintf("%s: error %v", at, gerr)
	}
	if fmt.Sprintf("%q", want) != fmt.Sprintf("%q", got) {
		return fmt.Sprintf("%s offers %.300q, not %.300q", at, got, want)
	}
	if !reflect.DeepEqual(gn, wn) {
		return fmt.Sprintf("%s gives %.300q, not %.300q", at, fmt.Sprint(gn), fmt.Sprint(wn))
	}
	return ""
}

var identArgs = []map[string]string{nil, {"how": "same"}, {"how": "empty"}, {"reject": "1"}, {"reject": "2"}, {"reject": "3"}, {"reject": "5"}}

func identSys(try func(*Case) bool) {
	k := func(n *NJ) bool {
		for _, m := range identArgs {
			if !try(&Case{Kind: "ident", Tree: n, Arg: m}) {
				return false
			}
		}
		return true
	}
	ls := gvLits()
	for _, t := range append(append([]string{}, dict.Str...), "", " ", "*", "a.b.c", "a[1]", "\x00", "é", "true", "$ident") {
		ls = append(ls, id(t))
	}
	ops := append(append(append(append([]string{}, compares...), members...), maths...), "$and", "$or")
	for _, l := range ls {
		if !k(l) {
			return
		}
		for _, o := range []string{"$not", "$exists", "$nexists"} {
			if !k(un(o, l)) || !k(un(o, un(o, l))) || !k(bin("$and", un(o, l), un(o, l))) {
				return
			}
		}
		for _, o := range ops {
			for _, r := range ls {
				if !k(bin(o, l, r)) {
					return
				}
			}
			if !k(bin(o, bin(o, l, id("a")), bin("$or", id("b"), bin("$add", l, id("a"))))) {
				return
			}
		}
	}
}

// litLists keeps literals only in the lists of a tree
func litLists(n *NJ) *NJ {
	for i, e := range n.A {
		if e.V == nil || e.F == "$ident" {
			n.A[i] = lit(fv(float64(i)))
		}
	}
	if n.L != nil {
		litLists(n.L)
	}
	if n.R != nil {
		litLists(n.R)
	}
	return n
}

func init() {
	kinds["ident"] = identCase
	props["I51"] = &prop{sys: identSys, rnd: func() *Case {
		return &Case{Kind: "ident", Tree: litLists(gvTree(1 + rng.Intn(6))), Arg: identArgs[rng.Intn(len(identArgs))]}
	}}
}
