package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/ident"

	"verif/spec6/gram"
)

var errReject = errors.New("rejected")

// identRef is the contract of ident.Walk: the tree and the names offered to the check function, left to right;
// bad is the answer at which the walk must stop.
type identRef struct {
	answer func(k int, name string) string
	calls  []string
	stop   bool
	bad    string
}

func (r *identRef) walk(t *gram.Tree) *gram.Tree {
	if t == nil || r.stop {
		return t
	}
	if t.Kind == "ident" {
		a := r.answer(len(r.calls), t.Str)
		r.calls = append(r.calls, t.Str)
		var x *gram.Tree
		if !strings.HasPrefix(a, "!") {
			x = gram.Parse(a)
		}
		if x == nil {
			r.stop, r.bad = true, a
		}
		return x
	}
	c := *t
	c.Kids = nil
	for _, k := range t.Kids {
		c.Kids = append(c.Kids, r.walk(k))
	}
	return &c
}

// identCase: Arg maps a name, "#" and the number of a call, or "*" to the answer of the check function;
// an answer that begins with "!" is an error, "=" stands for the name itself.
func identCase(c *Case) string {
	in := gram.Parse(c.Text)
	if in == nil {
		return ""
	}
	answer := func(k int, name string) string {
		a, ok := c.Arg[fmt.Sprintf("#%d", k)]
		if !ok {
			a, ok = c.Arg[name]
		}
		if !ok {
			a, ok = c.Arg["*"]
		}
		if !ok || a == "=" {
			a = name
		}
		return a
	}
	ref := &identRef{answer: answer}
	want := ref.walk(in)
	warm.Do(func() { tsl.ParseTSL("a = "); tsl.ParseTSL("a") })
	n, err := tsl.ParseTSL(c.Text)
	if err != nil {
		return ""
	}
	at := fmt.Sprintf("Walk of %q with %v", c.Text, c.Arg)
	e0, m0 := natErrors(), natLive()
	var calls []string
	r, err := ident.Walk(n, func(s string) (string, error) {
		a := answer(len(calls), s)
		calls = append(calls, s)
		if strings.HasPrefix(a, "!") {
			return "", errReject
		}
		return a, nil
	})
	if strings.Join(calls, "\x00") != strings.Join(ref.calls, "\x00") || len(calls) != len(ref.calls) {
		return fmt.Sprintf("%s: the check function was offered %q; the contract requires %q", at, calls, ref.calls)
	}
	if w := differs(n, in); w != "" {
		return at + ": the input was changed: " + w
	}
	if ref.stop {
		if err == nil {
			return at + ": no error"
		}
		if r != nil {
			return at + ": a tree and an error"
		}
		if strings.HasPrefix(ref.bad, "!") && err != errReject {
			return fmt.Sprintf("%s: the error of the check function became %v", at, err)
		}
		var se *tsl.SyntaxError
		if !strings.HasPrefix(ref.bad, "!") && (!errors.As(err, &se) || se.Input != ref.bad) {
			return fmt.Sprintf("%s: the error of %q became %v", at, ref.bad, err)
		}
	} else {
		if err != nil {
			return fmt.Sprintf("%s: error %v", at, err)
		}
		if w := differs(r, want); w != "" {
			return fmt.Sprintf("%s must be %s: %s", at, want, w)
		}
		r.Free()
		if w := differs(n, in); w != "" {
			return at + ": freeing the result changed the input: " + w
		}
	}
	if d := natLive() - m0; d != 0 {
		return fmt.Sprintf("%s: %d native blocks are left when the result is freed", at, d)
	}
	n.Free()
	if natErrors() != e0 {
		return at + ": native memory was freed twice or written out of bounds"
	}
	return ""
}

var identAnswers = []string{"=", "q", "x + 1", "[p, 'r']", "not (p = 1)", "7", "'s'", "a", "!", "p +", "", "null"}

func identSys(try func(*Case) bool) {
	kids := []string{"a", "b.c", "1", "'s'", "true", "null", "2020-01-01", "[]", "[a]", "[a, 1, b.c, [a, d]]", "(not a)", "(-(a))", "(a = d)", "(a is null)", "(len [a, a])"}
	var forms []string
	for _, o := range binToks {
		forms = append(forms, "%s "+o+" %s")
	}
	for _, o := range []string{"not", "len", "any", "all", "sum", "-", "+"} {
		forms = append(forms, o+" (%s)")
	}
	forms = append(forms, "%s", "%s is null", "%s is not null", "x between %s and %s", "%s in [%s, 1, e]", "[%s]", "[%s, %s]", "[%s, %s, %s]", "[1, [%s], 'x', [%s, [%s]]]", "not (%s = 1 and %s = 2)")
	for _, f := range forms {
		for _, x := range kids {
			for _, y := range kids {
				if strings.Count(f, "%s") < 2 && y != kids[0] {
					continue
				}
				t := strings.Replace(strings.Replace(strings.Replace(f, "%s", x, 1), "%s", y, 1), "%s", x, 1)
				for i, w := range identAnswers {
					args := []map[string]string{{"*": w}, {"a": w}, {"*": "=", "#0": w}, {"#1": w, "*": "z"}, {"#2": w, "a": "g", "*": "h"}}
					if x != "a" && y != "a" {
						args = args[i%len(args) : i%len(args)+1]
					}
					for _, m := range args {
						if !try(&Case{Kind: "ident", Text: t, Arg: m}) {
							return
						}
					}
				}
			}
		}
	}
}

func init() {
	fragile["ident"] = true
	kinds["ident"] = func(c *Case) string { return counted(func() string { return identCase(c) }) }
	props["I01"] = &prop{sys: identSys, rnd: func() *Case {
		m := map[string]string{}
		ans := func() string { return identAnswers[rng.Intn(len(identAnswers))] }
		for i := 0; i < rng.Intn(3); i++ {
			m[fmt.Sprintf("#%d", rng.Intn(6))] = ans()
		}
		for _, k := range []string{"a", "b", "*"} {
			if rng.Intn(2) == 0 {
				m[k] = ans()
			}
		}
		if rng.Intn(2) == 0 {
			return &Case{Kind: "ident", Text: treeText(3), Arg: m}
		}
		return &Case{Kind: "ident", Text: randExpr(1 + rng.Intn(4)), Arg: m}
	}}
}
