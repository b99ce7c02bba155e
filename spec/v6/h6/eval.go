package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
	"verif/spec6/sem"
)

type parsed struct {
	n   *tsl.TSLNode
	err error
}

var cache = map[string]parsed{}

func parse(text string) (*tsl.TSLNode, error) {
	if p, ok := cache[text]; ok {
		return p.n, p.err
	}
	n, err := tsl.ParseTSL(text)
	if len(cache) > 20000 {
		for _, p := range cache {
			if p.n != nil {
				p.n.Free()
			}
		}
		cache = map[string]parsed{}
	}
	cache[text] = parsed{n, err}
	return n, err
}

func desc(v interface{}) string { return fmt.Sprintf("%T(%v)", v, v) }

func evalCase(c *Case) string {
	n, err := parse(c.Text)
	if err != nil {
		return ""
	}
	eval := func(k string) (interface{}, bool) {
		v, ok := c.Rec[k]
		if !ok {
			return nil, false
		}
		return v.val(), true
	}
	given := map[string]interface{}{}
	ret, err := semantics.Walk(n, func(k string) (interface{}, bool) {
		v, ok := given[k]
		if !ok {
			if v, ok = eval(k); ok {
				given[k] = v
			}
		}
		return v, ok
	})
	for k, v := range given {
		if show(v) != show(c.Rec[k].val()) {
			return fmt.Sprintf("evaluating %q over %s changes the record: %s is %s afterwards", c.Text, recString(c.Rec), k, show(v))
		}
	}
	if !sem.PostWalk(n, eval, ret, err) {
		v, ok := sem.Eval(n, eval)
		if !ok {
			return fmt.Sprintf("evaluating %q over %s gives %s, error %v; the contract requires the right error", c.Text, recString(c.Rec), desc(ret), err)
		}
		return fmt.Sprintf("evaluating %q over %s gives %s, error %v; the contract requires %s", c.Text, recString(c.Rec), desc(ret), err, desc(v))
	}
	return ""
}

func quote(s string) string { return "'" + s + "'" }

// lits are literals for the right side of an operator.
func lits() []string {
	l := []string{"0", "1", "10", "0.5", "1.5", "-1", "2147483648", "9007199254740993", "1e300", "true", "false", "null", "2020-01-01", "2020-01-01T00:00:00Z", "2020-01-01T02:00:00+02:00", "[]", "[1,2]", "['a','b']", "[2020-01-01, 2020-02-01]", "['2020-01-01T02:00:00+02:00','x']", "[true,'a',1]", "[2,1]", "[1,1]", "['a']", "[0,0.5,1]", "[[1,2],3]"}
	for i, x := range dict.Num {
		if x >= 0 && x < 1e300 && i < 30 {
			for _, y := range []float64{x, 2 * x, x + 1} {
				l = append(l, strconv.FormatFloat(y, 'f', -1, 64))
			}
		}
	}
	for _, s := range append(strVals, dict.Str...) {
		if !strings.ContainsAny(s, "'\"`\\\x00") {
			l = append(l, quote(s))
		}
	}
	return l
}

var groups = map[string][]string{
	"E01": {"=", "!=", "<", "<=", ">", ">="},
	"E02": {"and", "or", "is"},
	"E04": {"in", "between", "not in", "not between"},
	"E05": {"like", "ilike", "~=", "~!", "not like", "not ilike"},
	"E06": {"+", "-", "*", "/", "%"},
}
var allOps = []string{"=", "!=", "<", "<=", ">", ">=", "and", "or", "in", "like", "ilike", "~=", "~!", "+", "-", "*", "/", "%"}

func binText(op, r string) string {
	switch op {
	case "is":
		return "a is null"
	case "between", "not between":
		return "a " + op + " l and h"
	case "in", "not in":
		if !strings.HasPrefix(r, "[") {
			return "a " + op + " [" + r + "]"
		}
	}
	return "a " + op + " " + r
}

func ec(text string, rec map[string]*VJ) *Case { return &Case{Kind: "eval", Text: text, Rec: rec} }

func sysBin(ops []string, withArr bool) func(try func(*Case) bool) {
	return func(try func(*Case) bool) {
		vals := scalars()
		right := append(append([]*VJ{}, vals...), arrays()...)
		left := vals
		if withArr {
			left = arrays()
		}
		ls := lits()
		for _, op := range ops {
			for _, v := range left {
				for _, r := range ls {
					if !try(ec(binText(op, r), map[string]*VJ{"a": v, "l": fv(0), "h": fv(2)})) {
						return
					}
				}
			}
		}
		for _, op := range ops {
			for _, v := range left {
				for _, r := range right {
					switch op {
					case "is":
						continue
					case "in", "not in":
						if !try(ec("a "+op+" [x,b]", map[string]*VJ{"a": v, "x": right[rng.Intn(len(right))], "b": r})) {
							return
						}
						continue
					case "between", "not between":
						if !try(ec("a "+op+" l and h", map[string]*VJ{"a": v, "l": vals[rng.Intn(len(vals))], "h": r})) {
							return
						}
						if !try(ec("a "+op+" l and h", map[string]*VJ{"a": v, "l": r, "h": v})) {
							return
						}
						continue
					}
					if !try(ec("a "+op+" b", map[string]*VJ{"a": v, "b": r})) {
						return
					}
				}
			}
		}
	}
}

func rexpr(ops []string, depth int) string {
	if depth == 0 {
		switch rng.Intn(6) {
		case 0:
			l := lits()
			return l[rng.Intn(len(l))]
		default:
			return []string{"a", "b", "c", "t", "f", "missing"}[rng.Intn(30)%6%5]
		}
	}
	switch rng.Intn(8) {
	case 0:
		return "not (" + rexpr(ops, depth-1) + ")"
	case 1:
		return []string{"any", "all", "len", "sum"}[rng.Intn(4)] + " (" + rexpr(ops, depth-1) + ")"
	case 2:
		return "(" + rexpr(ops, depth-1) + ") is null"
	case 3:
		return "(" + rexpr(ops, depth-1) + ") between " + rexpr(ops, 0) + " and " + rexpr(ops, 0)
	case 4:
		return "(" + rexpr(ops, depth-1) + ") in [" + rexpr(ops, 0) + "," + rexpr(ops, 0) + "]"
	}
	return "(" + rexpr(ops, depth-1) + ") " + ops[rng.Intn(len(ops))] + " (" + rexpr(ops, depth-1) + ")"
}

func rndEval(ops []string, depth int) func() *Case {
	return func() *Case {
		r := map[string]*VJ{"a": rval(2), "b": rval(2), "c": rval(1), "t": nv("bool", true), "f": nv("bool", false), "l": rval(0), "h": rval(0)}
		if rng.Intn(20) == 0 {
			delete(r, "b")
		}
		op := ops[rng.Intn(len(ops))]
		switch {
		case rng.Intn(2) == 0 && op == "between" || op == "not between":
			return ec("a "+op+" l and h", r)
		case op == "in" || op == "not in":
			n := rng.Intn(5)
			t := ""
			for i := 0; i < n; i++ {
				t += rexpr(ops, 0) + ","
			}
			return ec("a "+op+" ["+t+"a]", r)
		case rng.Intn(2) == 0:
			return ec(binText(op, rexpr(ops, 0)), r)
		}
		return ec(rexpr(ops, 1+rng.Intn(depth)), r)
	}
}

var unary = []string{"any ", "all ", "len ", "sum ", "not ", "-"}

func init() {
	kinds["eval"] = evalCase
	for id, ops := range groups {
		props[id] = &prop{sys: sysBin(ops, false), rnd: rndEval(ops, 3)}
	}
	for _, id := range []string{"E01", "E04", "E05", "E06"} {
		ops, first := groups[id], props[id].sys
		props[id].sys = func(try func(*Case) bool) {
			ls := lits()
			for _, op := range ops {
				for _, l := range ls {
					for _, r := range ls {
						if !try(ec(l+strings.TrimPrefix(binText(op, r), "a"), map[string]*VJ{"l": fv(0), "h": fv(2)})) {
							return
						}
					}
				}
			}
			first(try)
		}
	}
	logicSys := func(try func(*Case) bool) {
		vals := append(scalars(), arrays()...)
		for _, t := range []string{"not a", "a is null", "a is not null", "a and b", "a or b", "not a and b", "not (a or b)", "missing and a", "a or missing", "a and missing", "missing is null", "a = missing", "[a, missing]", "-missing", "any missing", "a in [1, missing]"} {
			for _, v := range vals {
				for _, b := range []*VJ{nv("bool", true), nv("bool", false), sv("true"), fv(1), {T: "nil"}, av(nv("bool", true))} {
					if !try(ec(t, map[string]*VJ{"a": v, "b": b})) {
						return
					}
				}
			}
		}
		sysBin(groups["E02"], false)(try)
	}
	props["E02"].sys = logicSys
	props["E02"].rnd = rndEval([]string{"and", "or", "=", "<", "and"}, 4)
	props["E03"] = &prop{sys: func(try func(*Case) bool) {
		for _, u := range unary {
			for _, v := range append(scalars(), arrays()...) {
				if !try(ec(u+"a", map[string]*VJ{"a": v})) {
					return
				}
			}
		}
		sysBin(allOps, true)(try)
	}, rnd: rndEval(allOps, 3)}
	mathSys := props["E06"].sys
	props["E06"].sys = func(try func(*Case) bool) {
		for _, v := range append(scalars(), arrays()...) {
			if !try(ec("-a", map[string]*VJ{"a": v})) {
				return
			}
		}
		mathSys(try)
	}
	props["E07"] = &prop{sys: func(try func(*Case) bool) {
		for _, t := range []string{"a", "[a]", "[a, [a, 1], 'x']"} {
			for _, v := range append(scalars(), arrays()...) {
				if !try(ec(t, map[string]*VJ{"a": v})) {
					return
				}
			}
		}
		for _, l := range lits() {
			if !try(ec(l, nil)) {
				return
			}
		}
	}, rnd: func() *Case {
		return ec([]string{"a", "[a,b]", "a = b", "len a"}[rng.Intn(4)], map[string]*VJ{"a": rval(4), "b": rval(3)})
	}}
}
