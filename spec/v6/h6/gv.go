package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/graphviz"

	"verif/spec6/gram"
)

// dot is what a list of DOT statements says.
type dot struct {
	order []string // the vertex statements
	attr  map[string]map[string]string
	edges map[string][]string // one entry for each edge statement
	nedge int
}

type dotReader struct {
	s string
	i int
}

func (r *dotReader) ws(extra string) bool {
	k := r.i
	for r.i < len(r.s) && strings.IndexByte(" \t\r\n"+extra, r.s[r.i]) >= 0 {
		r.i++
	}
	return r.i > k
}

func idByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
}

func (r *dotReader) word() (string, error) {
	k := r.i
	for r.i < len(r.s) && idByte(r.s[r.i]) {
		r.i++
	}
	if r.i == k {
		return "", fmt.Errorf("an identifier is missing at %.20q", r.s[r.i:])
	}
	return r.s[k:r.i], nil
}

func (r *dotReader) quoted() (string, error) {
	var b []byte
	for r.i++; r.i < len(r.s); r.i++ {
		c := r.s[r.i]
		switch {
		case c == '"':
			r.i++
			return string(b), nil
		case c == '\\' && r.i+1 < len(r.s) && r.s[r.i+1] == '"':
			b = append(b, '"')
			r.i++
		case c == '\\' && r.i+1 < len(r.s):
			b = append(b, '\\', r.s[r.i+1])
			r.i++
		default:
			b = append(b, c)
		}
	}
	return "", fmt.Errorf("a string does not end")
}

func readDot(s string) (*dot, error) {
	d := &dot{attr: map[string]map[string]string{}, edges: map[string][]string{}}
	r := &dotReader{s: s}
	for {
		r.ws(";")
		if r.i >= len(r.s) {
			return d, nil
		}
		id, err := r.word()
		if err != nil {
			return nil, err
		}
		r.ws("")
		switch {
		case strings.HasPrefix(r.s[r.i:], "->"):
			r.i += 2
			r.ws("")
			d.nedge++
			if _, ok := d.edges[id]; ok {
				return nil, fmt.Errorf("two edge statements of %s", id)
			}
			d.edges[id] = []string{}
			braces := r.i < len(r.s) && r.s[r.i] == '{'
			if braces {
				r.i++
			}
			for {
				r.ws(",;")
				if braces && r.i < len(r.s) && r.s[r.i] == '}' {
					r.i++
					break
				}
				k, err := r.word()
				if err != nil {
					return nil, err
				}
				d.edges[id] = append(d.edges[id], k)
				if !braces {
					break
				}
			}
		default:
			if _, ok := d.attr[id]; ok {
				return nil, fmt.Errorf("two vertices are called %s", id)
			}
			d.order = append(d.order, id)
			d.attr[id] = map[string]string{}
			if r.i < len(r.s) && r.s[r.i] == '[' {
				r.i++
				for {
					r.ws(",;")
					if r.i < len(r.s) && r.s[r.i] == ']' {
						r.i++
						break
					}
					n, err := r.word()
					if err != nil {
						return nil, err
					}
					r.ws("")
					if r.i >= len(r.s) || r.s[r.i] != '=' {
						return nil, fmt.Errorf("the attribute %s has no value", n)
					}
					r.i++
					r.ws("")
					var v string
					if r.i < len(r.s) && r.s[r.i] == '"' {
						v, err = r.quoted()
					} else {
						v, err = r.word()
					}
					if err != nil {
						return nil, err
					}
					d.attr[id][n] = v
				}
			}
		}
		if r.i < len(r.s) && r.s[r.i-1] != ']' && r.s[r.i-1] != '}' && !strings.ContainsRune(" \t\r\n;", rune(r.s[r.i])) && !strings.ContainsRune(" \t\r\n;", rune(r.s[r.i-1])) {
			return nil, fmt.Errorf("statements run together at %.20q", r.s[r.i:])
		}
	}
}

// shown is the text a label shows; the fields of a record are separated by \x01
func shown(l string, record bool) string {
	var b []byte
	for i := 0; i < len(l); i++ {
		c := l[i]
		switch {
		case c == '\\' && i+1 < len(l):
			i++
			if strings.IndexByte("nlr", l[i]) >= 0 {
				b = append(b, '\n')
			} else if strings.IndexByte("NGETHL", l[i]) >= 0 {
				b = append(b, 2)
			} else {
				b = append(b, l[i])
			}
		case record && strings.IndexByte("{}|<>", c) >= 0:
			b = append(b, 1)
		default:
			b = append(b, c)
		}
	}
	return string(b)
}

var gvOps = map[string]string{"EQ": "EQ", "NE": "NE", "LT": "LT", "LE": "LE", "GT": "GT", "GE": "GE", "REQ": "REQ", "RNE": "RNE", "K_AND": "AND", "K_OR": "OR", "K_NOT": "NOT",
	"K_LIKE": "LIKE", "K_ILIKE": "ILIKE", "K_IN": "IN", "K_BETWEEN": "BETWEEN", "K_IS": "IS", "PLUS": "ADD", "MINUS": "SUB", "STAR": "MUL", "SLASH": "DIV", "PERCENT": "MOD", "UMINUS": "NEG",
	"K_LEN": "LEN", "K_ANY": "ANY", "K_ALL": "ALL", "K_SUM": "SUM"}
var gvKinds = map[string]string{"num": "NUMBER", "str": "STRING", "ident": "IDENTIFIER", "date": "DATE", "rfc3339": "TIMESTAMP", "arr": "ARRAY", "bool": "BOOLEAN", "null": "NULL"}

func gvLabel(t *gram.Tree, label string) string {
	name := gvOps[t.Op]
	if t.Op == "" {
		name = gvKinds[t.Kind]
	}
	val := ""
	switch t.Kind {
	case "num":
		val = fmt.Sprint(t.Num)
	case "str", "ident":
		val = t.Str
	case "date", "rfc3339":
		val = t.Str
		if v, err := time.Parse(time.RFC3339, t.Str); err == nil {
			val = fmt.Sprint(v)
		}
	case "bool":
		val = fmt.Sprint(t.Str == "1")
	}
	l := strings.TrimSpace(label)
	if !strings.HasPrefix(l, name) {
		return "shows " + fmt.Sprintf("%q", label) + ", not " + name
	}
	l = l[len(name):]
	if l != "" && idByte(l[0]) {
		return "shows " + fmt.Sprintf("%q", label) + ", not " + name
	}
	if t.Kind == "null" {
		return ""
	}
	const cut = " \x01:='\""
	if strings.Trim(l, cut) != strings.Trim(val, cut) {
		return fmt.Sprintf("shows %q, not the value %q", label, val)
	}
	return ""
}

func gvCase(c *Case) string {
	n, err := tsl.ParseTSL(c.Text)
	if err != nil {
		return ""
	}
	defer n.Free()
	var in *gram.Tree
	if len(c.Text) > 60 { // the reference parser is slow
		in = treeOf(n)
	} else {
		in = gram.Parse(c.Text)
	}
	if in == nil {
		return ""
	}
	pre, id := c.Arg["prefix"], c.Arg["id"]
	if pre != "" && strings.Contains(c.Text, pre) {
		return ""
	}
	at := fmt.Sprintf("Walk(%q, %.200q, %q)", pre, c.Text, id)
	out, err := graphviz.Walk(pre, n, id)
	if err != nil {
		return fmt.Sprintf("%s: error %v", at, err)
	}
	if w := differs(n, in); w != "" && len(c.Text) <= 60 {
		return at + ": the tree was changed: " + w
	}
	if pre != "" {
		if !strings.HasPrefix(out, pre) || strings.Count(out, pre) != 1 {
			return fmt.Sprintf("%s: the prefix is there %d times in %.300q", at, strings.Count(out, pre), out)
		}
		out = out[len(pre):]
		if out == "" || !strings.ContainsRune(" \t\r\n;", rune(out[0])) {
			return fmt.Sprintf("%s: the prefix runs into the first statement: %.300q", at, out)
		}
	}
	d, err := readDot(out)
	if err != nil {
		return fmt.Sprintf("%s: %v in %.300q", at, err, out)
	}
	var count func(t *gram.Tree) int
	count = func(t *gram.Tree) int {
		k := 1
		for _, x := range t.Kids {
			k += count(x)
		}
		return k
	}
	if w := count(in); w != len(d.order) {
		return fmt.Sprintf("%s: %d vertices for %d nodes: %.300q", at, len(d.order), w, out)
	}
	root := id
	if root == "" {
		below := map[string]bool{}
		for _, l := range d.edges {
			for _, x := range l {
				below[x] = true
			}
		}
		for _, x := range d.order {
			if !below[x] {
				root = x
			}
		}
	}
	seen := map[string]bool{}
	inner := 0
	var cmp func(t *gram.Tree, v string) string
	cmp = func(t *gram.Tree, v string) string {
		a, ok := d.attr[v]
		if !ok {
			return fmt.Sprintf("no vertex statement of %s for %s", v, t)
		}
		if seen[v] {
			return fmt.Sprintf("two nodes are called %s", v)
		}
		seen[v] = true
		l, ok := a["label"]
		if !ok {
			return "the vertex of " + t.String() + " has no label"
		}
		if w := gvLabel(t, shown(l, strings.HasSuffix(a["shape"], "ecord"))); w != "" {
			return "the vertex of " + t.String() + " " + w
		}
		e, ok := d.edges[v]
		if ok {
			inner++
		}
		if len(e) != len(t.Kids) {
			return fmt.Sprintf("%d edges from %s, which has %d children", len(e), t, len(t.Kids))
		}
		for i, k := range t.Kids {
			if w := cmp(k, e[i]); w != "" {
				return w
			}
		}
		return ""
	}
	if w := cmp(in, root); w != "" {
		return fmt.Sprintf("%s: %.300s in %.300q", at, w, out)
	}
	if inner != d.nedge {
		return at + ": an edge statement of no node"
	}
	return ""
}

// treeOf is the tree as its accessors show it
func treeOf(n *tsl.TSLNode) *gram.Tree {
	code := func(o tsl.Operator) string {
		for k, v := range opCodes {
			if v == int(o) {
				return k
			}
		}
		return "?"
	}
	if n.Type() == tsl.KindNullLiteral {
		return &gram.Tree{Kind: "null"}
	}
	switch v := n.Value().(type) {
	case tsl.TSLExpressionOp:
		if v.Left == nil {
			return &gram.Tree{Kind: "un", Op: code(v.Operator), Kids: []*gram.Tree{treeOf(v.Right)}}
		}
		return &gram.Tree{Kind: "bin", Op: code(v.Operator), Kids: []*gram.Tree{treeOf(v.Left), treeOf(v.Right)}}
	case tsl.TSLArrayLiteral:
		t := &gram.Tree{Kind: "arr"}
		for _, x := range v.Values {
			t.Kids = append(t.Kids, treeOf(x))
		}
		return t
	case string:
		if n.Type() == tsl.KindIdentifier {
			return &gram.Tree{Kind: "ident", Str: v}
		}
		if n.Type() == tsl.KindStringLiteral {
			return &gram.Tree{Kind: "str", Str: v}
		}
		return &gram.Tree{Kind: map[bool]string{true: "date", false: "rfc3339"}[n.Type() == tsl.KindDateLiteral], Str: v}
	case time.Time:
		return &gram.Tree{Kind: map[bool]string{true: "date", false: "rfc3339"}[n.Type() == tsl.KindDateLiteral], Str: v.Format(time.RFC3339Nano)}
	case bool:
		return &gram.Tree{Kind: "bool", Str: map[bool]string{true: "1", false: "0"}[v]}
	case float64:
		return &gram.Tree{Kind: "num", Num: v}
	}
	return nil
}

var gvArgs = []map[string]string{nil, {"id": "root"}, {"prefix": "rankdir=LR;"}, {"prefix": "// zz\nnode [style=filled]", "id": "R"}, {"prefix": "  rankdir=LR; // %s %d%%\n\tlabel=\"é\";  "}}

func gvSys(try func(*Case) bool) {
	k := func(t string, all bool) bool {
		for i, m := range gvArgs {
			if !all && i > 0 {
				break
			}
			if !try(&Case{Kind: "gv", Text: t, Arg: m}) {
				return false
			}
		}
		return true
	}
	vals := []string{"a", "b.c", "c[1]", "c[*].d", "1", "-2.5", "1e300", "2Ki", "'s'", "''", "true", "false", "2020-01-01", "2020-01-01T10:00:00Z", "2020-01-01T10:00:00.5+02:00", "2020-13-45", "2020-13-45T10:00:00Z", "[]", "[1]", "[a, 'b', [c, []], 1]"}
	for c := 1; c < 256; c++ {
		if c == '\'' || c == '\\' {
			continue
		}
		vals = append(vals, "'x"+string([]byte{byte(c)})+"y'")
	}
	vals = append(vals, `'\\'`, `'it\'s'`, `'a\\n'`, `'\\"'`, `'"; evil [label="x"]; "'`, `'{a|b}'`, `'<p> q'`, `'\\N'`, `'%s'`, `'%d%%'`, "'a\nb'", "'é'", `'a -> b'`)
	for i, v := range vals {
		if !k(v, true) || !k("a = "+v, i < 20) {
			return
		}
	}
	for _, v := range vals[:20] {
		for _, o := range binToks {
			if !k(v+" "+o+" a", true) || !k("x "+o+" "+v, false) || !k("("+v+" "+o+" 1) "+o+" ("+v+" "+o+" 'q')", true) {
				return
			}
		}
		for _, f := range []string{"not (%s)", "len (%s)", "any (%s)", "all (%s)", "sum (%s)", "-(%s)", "%s is null", "%s is not null", "x between %s and 2", "x not between 1 and %s", "x in [1, %s, a]", "[%s, [%s, %s], not %s]", "not not (%s)"} {
			if !k(strings.ReplaceAll(f, "%s", v), true) {
				return
			}
		}
	}
	for _, w := range []int{2, 9, 10, 11, 26, 27, 52, 53, 100, 255, 256, 257, 1000, 4000} {
		if !k("a in [1"+strings.Repeat(", 'x'", w-1)+"]", w <= 100) || w <= 257 && (!k("a = 1"+strings.Repeat(" or b = 2", w), w <= 100) || !k(strings.Repeat("not ", w)+"a", w <= 100)) {
			return
		}
	}
}

func init() {
	fragile["gv"] = true
	kinds["gv"] = gvCase
	props["G01"] = &prop{sys: gvSys, rnd: func() *Case {
		m := gvArgs[rng.Intn(len(gvArgs))]
		switch rng.Intn(3) {
		case 0:
			return &Case{Kind: "gv", Text: treeText(3), Arg: m}
		case 1:
			return &Case{Kind: "gv", Text: sqlExpr(1 + rng.Intn(5)), Arg: m}
		}
		return &Case{Kind: "gv", Text: randExpr(1 + rng.Intn(5)), Arg: m}
	}}
}
