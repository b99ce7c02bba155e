// Package gram is the reference lexer and parser for the language described in tsl.gram.
package gram

import (
	_ "embed"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
)

//go:embed tsl.gram
var source string

// Tok is one token: its name, its text in the input and the text the parser gets.
type Tok struct {
	Name, Lexeme, Text string
}

// Tree is one node of a reference tree.
type Tree struct {
	Kind string // bin un arr num str ident date rfc3339 bool null
	Op   string
	Num  float64
	Str  string
	Kids []*Tree
}

type tokenRule struct {
	name string
	re   *regexp.Regexp
}

type prod struct {
	lhs  string
	rhs  []string
	tree sexp
}

type sexp struct {
	head string
	args []sexp
}

var (
	tokRules []tokenRule
	skipRe   *regexp.Regexp
	values   = map[string]string{}
	prods    = map[string][]prod{}
	start    string
	wholeDt  *regexp.Regexp
	wholeTs  *regexp.Regexp
)

func anchored(re string) *regexp.Regexp {
	r := regexp.MustCompile(`^(?:` + re + `)`)
	r.Longest()
	return r
}

func parseSexp(s string) (sexp, string) {
	s = strings.TrimLeft(s, " ")
	if strings.HasPrefix(s, "(") {
		s = s[1:]
		i := strings.IndexAny(s, " )")
		e := sexp{head: s[:i]}
		s = s[i:]
		for {
			s = strings.TrimLeft(s, " ")
			if strings.HasPrefix(s, ")") {
				return e, s[1:]
			}
			var a sexp
			a, s = parseSexp(s)
			e.args = append(e.args, a)
		}
	}
	i := strings.IndexAny(s+" ", " )")
	return sexp{head: s[:i]}, s[i:]
}

func init() {
	for _, l := range strings.Split(source, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		f := strings.SplitN(l, " ", 3)
		switch f[0] {
		case "word":
			tokRules = append(tokRules, tokenRule{f[1], anchored("(?i:" + f[2] + ")")})
		case "token":
			tokRules = append(tokRules, tokenRule{f[1], anchored(f[2])})
			if f[1] == "DATE" {
				wholeDt = regexp.MustCompile(`^(?:` + f[2] + `)$`)
			}
			if f[1] == "RFC3339" {
				wholeTs = regexp.MustCompile(`^(?:` + f[2] + `)$`)
			}
		case "value":
			values[f[1]] = f[2]
		case "skip":
			skipRe = anchored(strings.SplitN(l, " ", 2)[1])
		case "rule":
			rest := strings.SplitN(l, " ", 2)[1]
			lr := strings.SplitN(rest, "=>", 2)
			hs := strings.SplitN(lr[0], ":", 2)
			p := prod{lhs: strings.TrimSpace(hs[0]), rhs: strings.Fields(hs[1])}
			p.tree, _ = parseSexp(lr[1])
			if start == "" {
				start = p.lhs
			}
			prods[p.lhs] = append(prods[p.lhs], p)
		}
	}
}

// Unescape reads the inside of a quoted string.
func Unescape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '\\' && i+1 < len(s) {
			i++
			c = s[i]
			switch c {
			case 'n':
				c = '\n'
			case 't':
				c = '\t'
			case 'r':
				c = '\r'
			case 'b':
				c = '\b'
			case 'f':
				c = '\f'
			}
		}
		b.WriteByte(c)
	}
	return b.String()
}

// latin1 makes a text whose runes are the bytes of s, so that patterns work byte by byte.
func latin1(s string) string {
	r := make([]rune, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = rune(s[i])
	}
	return string(r)
}

// Patterns returns the patterns of the tokens, by name.
func Patterns() map[string]*regexp.Regexp {
	m := map[string]*regexp.Regexp{}
	for _, r := range tokRules {
		m[r.name] = r.re
	}
	return m
}

// Lex splits a text into tokens; ok is false when some character starts no token.
func Lex(s string) (toks []Tok, ok bool) {
	for len(s) > 0 {
		l1 := latin1(s)
		best, name := 0, ""
		n := func(re *regexp.Regexp) int {
			m := re.FindStringIndex(l1)
			if m == nil {
				return 0
			}
			return len([]rune(l1[:m[1]]))
		}
		if k := n(skipRe); k > 0 {
			s = s[k:]
			continue
		}
		for _, r := range tokRules {
			if k := n(r.re); k > best {
				best, name = k, r.name
			}
		}
		if best == 0 {
			return toks, false
		}
		t := Tok{Name: name, Lexeme: s[:best], Text: s[:best]}
		if values[name] == "quoted" {
			t.Text = Unescape(s[1 : best-1])
			if wholeDt.MatchString(t.Text) {
				t.Name = "DATE"
			} else if wholeTs.MatchString(t.Text) {
				t.Name = "RFC3339"
			}
		}
		toks = append(toks, t)
		s = s[best:]
	}
	return toks, true
}

// Number is the value of a numeric literal.
func Number(s string) float64 {
	num, mul := s, 1.0
	low := strings.ToLower(s)
	base := 1000.0
	if strings.HasSuffix(low, "i") {
		base = 1024
		num, low = num[:len(num)-1], low[:len(low)-1]
	}
	if i := strings.IndexByte("kmgtp", low[len(low)-1]); i >= 0 {
		mul = math.Pow(base, float64(i+1))
		num = num[:len(num)-1]
	}
	v, _ := strconv.ParseFloat(strings.TrimSuffix(num, "."), 64)
	return v * mul
}

type key struct {
	nt   string
	i, j int
}

type chart struct {
	toks []Tok
	memo map[key]*Tree
	done map[key]bool
	busy map[key]bool
}

func (c *chart) nt(n string, i, j int) *Tree {
	k := key{n, i, j}
	if c.done[k] {
		return c.memo[k]
	}
	if c.busy[k] {
		return nil
	}
	c.busy[k] = true
	var r *Tree
	for _, p := range prods[n] {
		if kids := c.seq(p.rhs, i, j); kids != nil {
			r = build(p.tree, kids)
			break
		}
	}
	c.busy[k] = false
	c.done[k] = true
	c.memo[k] = r
	return r
}

// seq matches a sequence of symbols with the tokens i..j; the result has one entry per symbol.
func (c *chart) seq(rhs []string, i, j int) []*Tree {
	if len(rhs) == 0 {
		if i == j {
			return []*Tree{}
		}
		return nil
	}
	s := rhs[len(rhs)-1]
	if _, isNT := prods[s]; !isNT {
		if j <= i || c.toks[j-1].Name != s {
			return nil
		}
		if r := c.seq(rhs[:len(rhs)-1], i, j-1); r != nil {
			return append(r, &Tree{Kind: "token", Str: c.toks[j-1].Text})
		}
		return nil
	}
	for m := j; m >= i; m-- {
		if len(rhs) == 1 && m != i {
			continue
		}
		if m == j && len(rhs) > 1 && s != "items" {
			continue // only items can be empty
		}
		t := c.nt(s, m, j)
		if t == nil {
			continue
		}
		if r := c.seq(rhs[:len(rhs)-1], i, m); r != nil {
			return append(r, t)
		}
	}
	return nil
}

func build(e sexp, kids []*Tree) *Tree {
	if strings.HasPrefix(e.head, "$") {
		n, _ := strconv.Atoi(e.head[1:])
		return kids[n-1]
	}
	arg := func(i int) *Tree { return build(e.args[i], kids) }
	switch e.head {
	case "bin":
		return &Tree{Kind: "bin", Op: e.args[0].head, Kids: []*Tree{arg(1), arg(2)}}
	case "un":
		return &Tree{Kind: "un", Op: e.args[0].head, Kids: []*Tree{arg(1)}}
	case "arr":
		t := &Tree{Kind: "arr"}
		for i := range e.args {
			t.Kids = append(t.Kids, arg(i))
		}
		return t
	case "snoc":
		l := arg(0)
		return &Tree{Kind: "arr", Kids: append(append([]*Tree{}, l.Kids...), arg(1))}
	case "null":
		return &Tree{Kind: "null"}
	case "bool":
		return &Tree{Kind: "bool", Str: e.args[0].head}
	case "num":
		s := arg(0).Str
		return &Tree{Kind: "num", Num: Number(s), Str: s}
	case "str", "ident", "date", "rfc3339":
		return &Tree{Kind: e.head, Str: arg(0).Str}
	}
	panic("tree builder " + e.head)
}

// Parse is the reference parser: nil when the text is not an expression.
func Parse(s string) *Tree {
	if strings.IndexByte(s, 0) >= 0 {
		return nil
	}
	toks, ok := Lex(s)
	if !ok || len(toks) == 0 {
		return nil
	}
	return ParseToks(toks)
}

// ParseToks parses a token sequence.
func ParseToks(toks []Tok) *Tree {
	c := &chart{toks: toks, memo: map[key]*Tree{}, done: map[key]bool{}, busy: map[key]bool{}}
	return c.nt(start, 0, len(toks))
}

func (t *Tree) String() string {
	var l []string
	for _, k := range t.Kids {
		l = append(l, k.String())
	}
	in := strings.Join(l, " ")
	switch t.Kind {
	case "bin", "un":
		return "(" + t.Op + " " + in + ")"
	case "arr":
		return "[" + in + "]"
	case "num":
		return strconv.FormatFloat(t.Num, 'g', -1, 64)
	case "bool":
		return map[string]string{"1": "true", "0": "false"}[t.Str]
	case "null":
		return "NULL"
	}
	return fmt.Sprintf("%s:%q", t.Kind, t.Str)
}
