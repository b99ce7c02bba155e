package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/semantics"
	"verif/spec5/sem"
)

// NJ is a tree in JSON.
type NJ struct {
	F string `json:"f"`
	V *VJ    `json:"v,omitempty"`
	L *NJ    `json:"l,omitempty"`
	R *NJ    `json:"r,omitempty"`
	A []*NJ  `json:"a,omitempty"`
}

func (n *NJ) node() tsl.Node {
	x := tsl.Node{Func: n.F}
	if n.V != nil {
		x.Left = n.V.val()
	}
	if n.L != nil {
		x.Left = n.L.node()
	}
	if n.R != nil {
		x.Right = n.R.node()
	}
	if n.F == "$array" {
		a := []tsl.Node{}
		for _, e := range n.A {
			a = append(a, e.node())
		}
		x.Right = a
	}
	return x
}

func (n *NJ) String() string {
	switch {
	case n.V != nil:
		return n.F[1:] + " " + n.V.S
	case n.F == "$null":
		return "null"
	case n.F == "$array":
		var l []string
		for _, e := range n.A {
			l = append(l, e.String())
		}
		return "[" + strings.Join(l, ", ") + "]"
	case n.R == nil:
		return n.F + " (" + n.L.String() + ")"
	}
	return "(" + n.L.String() + ") " + n.F + " (" + n.R.String() + ")"
}

func lit(v *VJ) *NJ {
	switch v.T {
	case "string", "bool", "nil", "time":
		return &NJ{F: map[string]string{"string": "$string", "bool": "$boolean", "nil": "$null", "time": "$date"}[v.T], V: map[bool]*VJ{true: nil, false: v}[v.T == "nil"]}
	case "map", "struct", "strings":
		return &NJ{F: "$string", V: sv(v.S)}
	}
	f := 0.0
	switch x := v.val().(type) {
	case float64:
		f = x
	default:
		f, _ = strconv.ParseFloat(v.S, 64)
	}
	return &NJ{F: "$number", V: fv(f)}
}

func id(s string) *NJ                  { return &NJ{F: "$ident", V: sv(s)} }
func bin(op string, l, r *NJ) *NJ      { return &NJ{F: op, L: l, R: r} }
func un(op string, l *NJ) *NJ          { return &NJ{F: op, L: l} }
func list(l ...*NJ) *NJ                { return &NJ{F: "$array", A: l} }
func ec(n *NJ, r map[string]*VJ) *Case { return &Case{Kind: "eval", Tree: n, Rec: r} }

var compares = []string{"$eq", "$ne", "$lt", "$lte", "$gt", "$gte", "$like", "$ilike", "$regex", "$nregex"}
var members = []string{"$in", "$nin", "$between", "$nbetween"}
var maths = []string{"$add", "$subtract", "$multiply", "$divide", "$modulo"}

func evalCase(c *Case) string {
	n := c.Tree.node()
	eval := func(k string) (interface{}, bool) {
		v, ok := c.Rec[k]
		if !ok {
			return nil, false
		}
		return v.val(), true
	}
	if !sem.PreWalk(n, eval) {
		return ""
	}
	ret, err := semantics.Walk(n, eval)
	if !sem.PostWalk(n, eval, ret, err) {
		return fmt.Sprintf("evaluating %s over %s gives %v, error %v; the contract requires %s", c.Tree, recString(c.Rec), ret, err, []string{"false", "true", "an error"}[sem.Res(n, eval)])
	}
	return ""
}

func isLit(n *NJ) bool { return n.F != "$null" && n.F != "$array" }

func sysEval(try func(*Case) bool) {
	vals := scalars()
	key := []*VJ{sv(""), sv("abc"), sv("a\nc"), sv("true"), sv("a"), fv(0), fv(1), fv(2), fv(math.NaN()), nv("bool", true), nv("bool", false), timeVals[0], timeVals[2], {T: "nil"}, {T: "map"}, {T: "strings", A: []*VJ{sv("a"), sv("b")}}, nv("int", 3), nv("uint64", 2)}
	eq := bin("$eq", id("a"), lit(fv(1)))
	for _, o := range []string{"$exists", "$nexists"} {
		for _, v := range vals {
			if !try(ec(un(o, id("a")), map[string]*VJ{"a": v})) {
				return
			}
			for _, m := range maths {
				if !try(ec(un(o, bin(m, id("a"), lit(fv(2)))), map[string]*VJ{"a": v})) || !try(ec(un(o, bin(m, lit(v), id("b"))), map[string]*VJ{"b": fv(2)})) {
					return
				}
			}
		}
		if !try(ec(un(o, id("missing")), nil)) || !try(ec(un(o, lit(fv(1))), nil)) {
			return
		}
	}
	// every operator over pairs of selected values, then over all
	for pass, pool := range [][]*VJ{key, vals} {
		for _, o := range compares {
			for _, v := range pool {
				for _, w := range pool {
					if !try(ec(bin(o, id("a"), lit(w)), map[string]*VJ{"a": v})) || !try(ec(bin(o, id("a"), id("b")), map[string]*VJ{"a": v, "b": w})) || !try(ec(bin(o, lit(v), id("b")), map[string]*VJ{"b": w})) {
						return
					}
					if pass > 0 {
						continue
					}
					for _, m := range maths {
						if !try(ec(bin(o, bin(m, id("a"), lit(fv(2))), lit(w)), map[string]*VJ{"a": v})) || !try(ec(bin(o, id("a"), bin(m, id("b"), id("c"))), map[string]*VJ{"a": v, "b": w, "c": fv(3)})) ||
							!try(ec(bin(o, bin(m, lit(fv(7)), id("a")), bin(m, id("a"), lit(fv(3)))), map[string]*VJ{"a": v})) || !try(ec(bin(o, bin(m, bin("$add", id("a"), id("a")), id("b")), lit(fv(2))), map[string]*VJ{"a": v, "b": w})) {
							return
						}
					}
				}
			}
		}
		for _, o := range members {
			for _, v := range pool {
				for _, w := range pool {
					for _, x := range key {
						if !isLit(lit(w)) || !isLit(lit(x)) || pass > 0 && rng.Intn(8) > 0 {
							continue
						}
						if !try(ec(bin(o, id("a"), list(lit(w), lit(x))), map[string]*VJ{"a": v})) || !try(ec(bin(o, lit(v), list(lit(x), lit(w))), nil)) {
							return
						}
					}
				}
				if o == "$in" || o == "$nin" {
					if !try(ec(bin(o, id("a"), list()), map[string]*VJ{"a": v})) || !try(ec(bin(o, id("a"), list(lit(fv(5)), lit(fv(6)), lit(fv(1)))), map[string]*VJ{"a": v})) {
						return
					}
				}
			}
		}
		for _, v := range pool {
			b := un("$exists", id("missing"))
			for _, n := range []*NJ{un("$not", bin("$eq", id("a"), lit(fv(1)))), un("$not", un("$not", bin("$lt", id("a"), lit(fv(1))))), bin("$and", eq, b), bin("$or", eq, b), bin("$and", b, eq), bin("$or", un("$not", b), eq), bin("$and", un("$not", b), eq), bin("$or", eq, eq)} {
				if !try(ec(n, map[string]*VJ{"a": v})) {
					return
				}
			}
		}
	}
}

func rside(depth int) *NJ {
	switch x := rng.Intn(8); {
	case x < 4:
		return id([]string{"a", "b", "c", "missing"}[rng.Intn(4)])
	case x == 4 && depth > 0:
		return bin(maths[rng.Intn(5)], rside(depth-1), rside(depth-1))
	}
	return lit(rval(0))
}

func rcond(depth int) *NJ {
	if depth > 0 {
		switch rng.Intn(4) {
		case 0:
			return bin("$and", rcond(depth-1), rcond(depth-1))
		case 1:
			return bin("$or", rcond(depth-1), rcond(depth-1))
		case 2:
			return un("$not", rcond(depth-1))
		}
	}
	switch rng.Intn(3) {
	case 0:
		return bin(compares[rng.Intn(len(compares))], rside(2), rside(2))
	case 1:
		n := 2
		o := members[rng.Intn(4)]
		if o == "$in" || o == "$nin" {
			n = rng.Intn(5)
		}
		l := list()
		for len(l.A) < n {
			if e := lit(rval(0)); isLit(e) {
				l.A = append(l.A, e)
			}
		}
		return bin(o, rside(1), l)
	}
	return un([]string{"$exists", "$nexists"}[rng.Intn(2)], rside(1))
}

func rrec() map[string]*VJ {
	r := map[string]*VJ{}
	for _, k := range []string{"a", "b", "c"} {
		if rng.Intn(8) > 0 {
			r[k] = rval(0)
		}
	}
	return r
}

func init() {
	kinds["eval"] = evalCase
	p := &prop{sys: sysEval, rnd: func() *Case { return ec(rcond(rng.Intn(4)), rrec()) }}
	props["E51"], props["E41"] = p, p
}
