package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/graphviz"
	"verif/spec5/sem"
)

// dot is what a list of DOT statements says.
type dot struct {
	order []string // the vertex statements
	attr  map[string]map[string]string
	edges map[string][]string // one entry for each edge statement
	nedge int
}

type dotReader struct {
	s string
	i int
}

func (r *dotReader) ws(extra string) bool {
	k := r.i
	for r.i < len(r.s) && strings.IndexByte(" \t\r\n"+extra, r.s[r.i]) >= 0 {
		r.i++
	}
	return r.i > k
}

func idByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
}

func (r *dotReader) word() (string, error) {
	k := r.i
	for r.i < len(r.s) && idByte(r.s[r.i]) {
		r.i++
	}
	if r.i == k {
		return "", fmt.Errorf("an identifier is missing at %.20q", r.s[r.i:])
	}
	return r.s[k:r.i], nil
}

func (r *dotReader) quoted() (string, error) {
	var b []byte
	for r.i++; r.i < len(r.s); r.i++ {
		c := r.s[r.i]
		switch {
		case c == '"':
			r.i++
			return string(b), nil
		case c == '\\' && r.i+1 < len(r.s) && r.s[r.i+1] == '"':
			b = append(b, '"')
			r.i++
		case c == '\\' && r.i+1 < len(r.s):
			b = append(b, '\\', r.s[r.i+1])
			r.i++
		default:
			b = append(b, c)
		}
	}
	return "", fmt.Errorf("a string does not end")
}

func readDot(s string) (*dot, error) {
	d := &dot{attr: map[string]map[string]string{}, edges: map[string][]string{}}
	r := &dotReader{s: s}
	for {
		r.ws(";")
		if r.i >= len(r.s) {
			return d, nil
		}
		id, err := r.word()
		if err != nil {
			return nil, err
		}
		r.ws("")
		switch {
		case strings.HasPrefix(r.s[r.i:], "->"):
			r.i += 2
			r.ws("")
			d.nedge++
			if _, ok := d.edges[id]; ok {
				return nil, fmt.Errorf("two edge statements of %s", id)
			}
			d.edges[id] = []string{}
			braces := r.i < len(r.s) && r.s[r.i] == '{'
			if braces {
				r.i++
			}
			for {
				r.ws(",;")
				if braces && r.i < len(r.s) && r.s[r.i] == '}' {
					r.i++
					break
				}
				k, err := r.word()
				if err != nil {
					return nil, err
				}
				d.edges[id] = append(d.edges[id], k)
				if !braces {
					break
				}
			}
		default:
			if _, ok := d.attr[id]; ok {
				return nil, fmt.Errorf("two vertices are called %s", id)
			}
			d.order = append(d.order, id)
			d.attr[id] = map[string]string{}
			if r.i < len(r.s) && r.s[r.i] == '[' {
				r.i++
				for {
					r.ws(",;")
					if r.i < len(r.s) && r.s[r.i] == ']' {
						r.i++
						break
					}
					n, err := r.word()
					if err != nil {
						return nil, err
					}
					r.ws("")
					if r.i >= len(r.s) || r.s[r.i] != '=' {
						return nil, fmt.Errorf("the attribute %s has no value", n)
					}
					r.i++
					r.ws("")
					var v string
					if r.i < len(r.s) && r.s[r.i] == '"' {
						v, err = r.quoted()
					} else {
						v, err = r.word()
					}
					if err != nil {
						return nil, err
					}
					d.attr[id][n] = v
				}
			}
		}
		if r.i < len(r.s) && r.s[r.i-1] != ']' && r.s[r.i-1] != '}' && !strings.ContainsRune(" \t\r\n;", rune(r.s[r.i])) && !strings.ContainsRune(" \t\r\n;", rune(r.s[r.i-1])) {
			return nil, fmt.Errorf("statements run together at %.20q", r.s[r.i:])
		}
	}
}

// shown is the text a label shows; the fields of a record are separated by \x01
func shown(l string, record bool) string {
	var b []byte
	for i := 0; i < len(l); i++ {
		c := l[i]
		switch {
		case c == '\\' && i+1 < len(l):
			i++
			if strings.IndexByte("nlr", l[i]) >= 0 {
				b = append(b, '\n')
			} else if strings.IndexByte("NGETHL", l[i]) >= 0 {
				b = append(b, 2)
			} else {
				b = append(b, l[i])
			}
		case record && strings.IndexByte("{}|<>", c) >= 0:
			b = append(b, 1)
		default:
			b = append(b, c)
		}
	}
	return string(b)
}

// gvLabel compares what a label shows with the operator and the value of a node
func gvLabel(n tsl.Node, label string) string {
	val := ""
	switch n.Func {
	case "$ident", "$string", "$number", "$date", "$boolean":
		val = fmt.Sprint(n.Left)
	}
	l := strings.TrimSpace(label)
	if !strings.HasPrefix(l, n.Func) {
		return "shows " + fmt.Sprintf("%q", label) + ", not " + n.Func
	}
	l = l[len(n.Func):]
	if l != "" && idByte(l[0]) {
		return "shows " + fmt.Sprintf("%q", label) + ", not " + n.Func
	}
	const cut = " \x01:='\""
	if strings.Trim(l, cut) != strings.Trim(val, cut) {
		return fmt.Sprintf("shows %q, not the value %q", label, val)
	}
	return ""
}

func kids(n tsl.Node) []tsl.Node {
	var l []tsl.Node
	if x, ok := n.Left.(tsl.Node); ok {
		l = append(l, x)
	}
	switch x := n.Right.(type) {
	case tsl.Node:
		l = append(l, x)
	case []tsl.Node:
		l = append(l, x...)
	}
	return l
}

func gvCase(c *Case) string {
	n := c.Tree.node()
	pre, id := c.Arg["prefix"], c.Arg["id"]
	if pre != "" && strings.Contains(c.Text, pre) {
		return ""
	}
	at := fmt.Sprintf("Walk(%q, %.200q, %q)", pre, c.Text, id)
	before := fmt.Sprint(n)
	out, err := graphviz.Walk(pre, n, id)
	if err != nil {
		return fmt.Sprintf("%s: error %v", at, err)
	}
	if fmt.Sprint(n) != before {
		return at + ": the tree was changed"
	}
	if pre != "" {
		if !strings.HasPrefix(out, pre) || strings.Count(out, pre) != 1 {
			return fmt.Sprintf("%s: the prefix is there %d times in %.300q", at, strings.Count(out, pre), out)
		}
		out = out[len(pre):]
		if out == "" || !strings.ContainsRune(" \t\r\n;", rune(out[0])) {
			return fmt.Sprintf("%s: the prefix runs into the first statement: %.300q", at, out)
		}
	}
	d, err := readDot(out)
	if err != nil {
		return fmt.Sprintf("%s: %v in %.300q", at, err, out)
	}
	var count func(t tsl.Node) int
	count = func(t tsl.Node) int {
		k := 1
		for _, x := range kids(t) {
			k += count(x)
		}
		return k
	}
	if w := count(n); w != len(d.order) {
		return fmt.Sprintf("%s: %d vertices for %d nodes: %.300q", at, len(d.order), w, out)
	}
	root := id
	if root == "" {
		below := map[string]bool{}
		for _, l := range d.edges {
			for _, x := range l {
				below[x] = true
			}
		}
		for _, x := range d.order {
			if !below[x] {
				root = x
			}
		}
	}
	seen := map[string]bool{}
	inner := 0
	var cmp func(t tsl.Node, v string) string
	cmp = func(t tsl.Node, v string) string {
		a, ok := d.attr[v]
		if !ok {
			return fmt.Sprintf("no vertex statement of %s for a node %s", v, t.Func)
		}
		if seen[v] {
			return fmt.Sprintf("two nodes are called %s", v)
		}
		seen[v] = true
		l, ok := a["label"]
		if !ok {
			return "the vertex of a node " + t.Func + " has no label"
		}
		if w := gvLabel(t, shown(l, strings.HasSuffix(a["shape"], "ecord"))); w != "" {
			return "the vertex of a node " + t.Func + " " + w
		}
		e, ok := d.edges[v]
		if ok {
			inner++
		}
		k := kids(t)
		if len(e) != len(k) {
			return fmt.Sprintf("%d edges from a node %s, which has %d children", len(e), t.Func, len(k))
		}
		for i, x := range k {
			if w := cmp(x, e[i]); w != "" {
				return w
			}
		}
		return ""
	}
	if w := cmp(n, root); w != "" {
		return fmt.Sprintf("%s: %.300s in %.300q", at, w, out)
	}
	if inner != d.nedge {
		return at + ": an edge statement of no node"
	}
	return ""
}

var gvArgs = []map[string]string{nil, {"id": "root"}, {"prefix": "rankdir=LR;"}, {"prefix": "// zz\nnode [style=filled]", "id": "R"}, {"prefix": "  rankdir=LR; // %s %d%%\n\tlabel=\"é\";  "}}

func gvLits() []*NJ {
	l := []*NJ{id("a"), id("b.c"), id("spec.`x`"), lit(sv("s")), lit(sv("")), lit(fv(1)), lit(fv(-2.5)), lit(fv(1e300)), lit(fv(1234567891)), lit(fv(0.1234567890123)), lit(fv(123456789012345678)), lit(fv(1e21)), lit(fv(1e-7)), lit(fv(math.Copysign(0, -1))), {F: "$null"}, list(), list(lit(fv(1)))}
	if sem.Full {
		l = append(l, lit(nv("bool", true)), lit(nv("bool", false)))
		for _, v := range timeVals {
			l = append(l, lit(v))
		}
	}
	return l
}

func gvSys(try func(*Case) bool) {
	k := func(n *NJ) bool {
		for _, m := range gvArgs {
			if !try(&Case{Kind: "gv", Tree: n, Arg: m}) {
				return false
			}
		}
		return true
	}
	texts := []string{`\`, `it's`, `a\n`, `\"`, `"; evil [label="x"]; "`, `{a|b}`, `<p> q`, `\N`, `%s`, `%d%%`, "a\nb", "é", `a -> b`}
	texts = append(texts, dict.Str...)
	for c := 1; c < 256; c++ {
		texts = append(texts, "x"+string(rune(c))+"y")
	}
	for _, t := range texts {
		if !k(lit(sv(t))) || !k(id(t)) || !k(bin("$eq", id(t), lit(sv(t)))) || !k(bin("$in", id("a"), list(lit(sv(t)), lit(sv("q"))))) {
			return
		}
	}
	ops := append(append(append(append([]string{}, compares...), members...), maths...), "$and", "$or")
	ls := gvLits()
	for _, l := range ls {
		if !k(l) {
			return
		}
		for _, r := range ls {
			for _, o := range ops {
				if !k(bin(o, l, r)) || !k(bin(o, bin(o, l, r), bin("$or", r, l))) {
					return
				}
			}
			if !k(list(l, r, list(r, l))) {
				return
			}
		}
		for _, o := range []string{"$not", "$exists", "$nexists"} {
			if !k(un(o, l)) || !k(un(o, un(o, l))) || !k(bin("$and", un(o, l), un(o, l))) {
				return
			}
		}
	}
	for _, w := range []int{2, 9, 10, 11, 26, 27, 52, 53, 100, 255, 256, 257, 1000, 4000} {
		var es []*NJ
		for i := 0; i < w; i++ {
			es = append(es, lit(sv("x")))
		}
		a, b := id("a"), id("a")
		for i := 0; i < w && w <= 300; i++ {
			a, b = bin("$or", a, id("b")), un("$not", b)
		}
		if !k(bin("$in", id("a"), list(es...))) || !k(a) || !k(b) {
			return
		}
	}
}

func gvTree(depth int) *NJ {
	if depth > 0 {
		switch rng.Intn(5) {
		case 0, 1:
			return bin([]string{"$and", "$or", "$eq", "$add", "$in"}[rng.Intn(5)], gvTree(depth-1), gvTree(depth-1))
		case 2:
			return un([]string{"$not", "$exists", "$nexists"}[rng.Intn(3)], gvTree(depth-1))
		case 3:
			l := list()
			for i := rng.Intn(5); i > 0; i-- {
				l.A = append(l.A, gvTree(depth-1))
			}
			return l
		}
	}
	ls := gvLits()
	return ls[rng.Intn(len(ls))]
}

func init() {
	kinds["gv"] = gvCase
	props["G51"] = &prop{sys: gvSys, rnd: func() *Case {
		return &Case{Kind: "gv", Tree: gvTree(1 + rng.Intn(6)), Arg: gvArgs[rng.Intn(len(gvArgs))]}
	}}
}
