package main

import (
	"fmt"
	"strings"

	"github.com/yaacov/tree-search-language/v6/pkg/walkers/sql"
	"verif/spec6/sqls"
)

func sqlCase(post string) func(*Case) string {
	return func(c *Case) string {
		n, err := parse(c.Text)
		if err != nil {
			return ""
		}
		s, err := sql.Walk(n)
		ok := false
		switch post {
		case "args":
			ok = sqls.PostArgs(n, s, err)
		default:
			ok = sqls.PostText(n, s, err)
		}
		if ok && err == nil && !strings.Contains(c.Text, "`") {
			t, a, e := s.ToSql()
			if e == nil && strings.Count(t, "?") != len(a) {
				return fmt.Sprintf("the SQL of %q is %q, %d placeholders with %d arguments %v", c.Text, t, strings.Count(t, "?"), len(a), a)
			}
		}
		if ok {
			return ""
		}
		if err != nil || s == nil {
			return fmt.Sprintf("the SQL of %q is %v, error %v; the contract requires %v", c.Text, s, err, sqls.OK(n))
		}
		t, a, e := s.ToSql()
		if !sqls.OK(n) {
			return fmt.Sprintf("the SQL of %q is %q %v; the contract requires an error", c.Text, t, a)
		}
		return fmt.Sprintf("the SQL of %q is %q %v %v; the contract requires %q %v", c.Text, t, a, e, sqls.Text(n), sqls.Bound(n))
	}
}

var sqlOps = []string{"=", "!=", "<", "<=", ">", ">=", "and", "or", "like", "ilike", "~=", "~!", "not like", "not ilike", "+", "-", "*", "/", "%"}

func sqlSys(kind string) func(try func(*Case) bool) {
	return func(try func(*Case) bool) {
		k := func(t string) bool { return try(&Case{Kind: kind, Text: t}) }
		var l []string
		for _, x := range lits() {
			if x != "null" {
				l = append(l, x)
			}
		}
		l = append(l, "'x''y'", `'it\'s'`, `'; drop table t; --'`, "'?'", "'??'", "'%?_'", "name", "a.b.c", "1Ki", "2.5M", "'a?b'",
			"2e18", "-3e18", "1e30", "9007199254740993", "9223372036854775807", "1.5e300", "-0", "0.1")
		for _, x := range l {
			for _, f := range []string{"%s", "not %s", "-%s", "%s is null", "%s is not null", "len %s", "any %s", "all %s", "sum %s", "a in [%s]", "a in [1,%s,2]", "a not in [%s,%s]", "a between %s and 2", "a between 1 and %s", "%s in [1,2]", "a not between %s and %s", "(%s) = (a = 1)", "[%s]"} {
				if !k(strings.ReplaceAll(f, "%s", x)) {
					return
				}
			}
			for _, op := range sqlOps {
				if !k("a "+op+" "+x) || !k(x+" "+op+" a") {
					return
				}
			}
		}
		for _, n := range []int{2, 3, 9, 17, 65, 300, 1001, 2500, 5001} {
			if !k("a in [1" + strings.Repeat(",'x'", n-1) + "]") {
				return
			}
		}
		for _, o1 := range sqlOps {
			for _, o2 := range sqlOps {
				if !k("a "+o1+" 1 "+o2+" 'x'") || !k("a "+o1+" (1 "+o2+" 'x')") || !k("(a "+o1+" 1) "+o2+" 'x'") || !k("not (a "+o1+" 1 "+o2+" b)") {
					return
				}
			}
		}
	}
}

func sqlExpr(d int) string {
	if d == 0 || rng.Intn(6) == 0 {
		switch rng.Intn(3) {
		case 0:
			return []string{"a", "b.c", "name"}[rng.Intn(3)]
		case 1:
			return fmt.Sprint(rng.Intn(100))
		}
		l := lits()
		return l[rng.Intn(len(l))]
	}
	switch rng.Intn(12) {
	case 0:
		return "not (" + sqlExpr(d-1) + ")"
	case 1:
		return "-(" + sqlExpr(d-1) + ")"
	case 2:
		return "(" + sqlExpr(d-1) + ") is null"
	case 3:
		n := rng.Intn(5)
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, sqlExpr(rng.Intn(2)))
		}
		return "(" + sqlExpr(d-1) + ") in [" + strings.Join(l, ",") + "]"
	case 4:
		return "(" + sqlExpr(d-1) + ") between " + sqlExpr(0) + " and " + sqlExpr(0)
	case 5:
		return []string{"len", "any", "all", "sum"}[rng.Intn(4)] + " (" + sqlExpr(d-1) + ")"
	}
	return "(" + sqlExpr(d-1) + ") " + sqlOps[rng.Intn(len(sqlOps))] + " (" + sqlExpr(d-1) + ")"
}

func init() {
	kinds["sqlargs"], kinds["sqltext"] = sqlCase("args"), sqlCase("text")
	props["Q01"] = &prop{sys: sqlSys("sqlargs"), rnd: func() *Case { return &Case{Kind: "sqlargs", Text: sqlExpr(1 + rng.Intn(4))} }}
	props["Q02"] = &prop{sys: sqlSys("sqltext"), rnd: func() *Case { return &Case{Kind: "sqltext", Text: sqlExpr(1 + rng.Intn(4))} }}
}
