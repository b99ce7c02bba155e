package main

/*
#cgo LDFLAGS: -Wl,--wrap=malloc -Wl,--wrap=free -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=strdup -Wl,--wrap=strndup
long nat_live(void);
long nat_errors(void);
*/
import "C"

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"

	"verif/spec6/gram"
)

func natLive() int   { return int(C.nat_live()) }
func natErrors() int { return int(C.nat_errors()) }

var opCodes = map[string]int{"K_LIKE": 258, "K_ILIKE": 259, "K_AND": 260, "K_OR": 261, "K_BETWEEN": 262, "K_IN": 263, "K_IS": 264, "K_NOT": 266, "K_LEN": 269, "K_ANY": 270, "K_ALL": 271, "K_SUM": 272,
	"PLUS": 278, "MINUS": 279, "STAR": 280, "SLASH": 281, "PERCENT": 282, "EQ": 288, "NE": 289, "LT": 290, "LE": 291, "GT": 292, "GE": 293, "REQ": 294, "RNE": 295, "UMINUS": 296}
var kindCodes = map[string]int{"num": 0, "str": 1, "ident": 2, "bin": 3, "un": 4, "date": 5, "rfc3339": 6, "arr": 7, "bool": 8, "null": 9}

// differs compares a native tree with a reference tree; nil stands for an empty place.
func differs(n *tsl.TSLNode, t *gram.Tree) string {
	if t == nil {
		if n == nil {
			return ""
		}
		if c := n.Clone(); c != nil {
			return "there is a node where none must be: " + shownode(c)
		}
		return ""
	}
	if n == nil {
		return "no node where " + t.String() + " must be"
	}
	if c := n.Clone(); c == nil {
		return "an empty node where " + t.String() + " must be"
	} else {
		c.Free()
	}
	if int(n.Type()) != kindCodes[t.Kind] {
		return fmt.Sprintf("kind %v (%d) where %s must be", n.Type(), int(n.Type()), t)
	}
	v := n.Value()
	bad := func() string { return fmt.Sprintf("value %v (%T) where %s must be", v, v, t) }
	switch t.Kind {
	case "num":
		if f, ok := v.(float64); !ok || f != t.Num && !(math.IsNaN(f) && math.IsNaN(t.Num)) || math.Signbit(f) != math.Signbit(t.Num) {
			return bad()
		}
	case "str", "ident":
		if s, ok := v.(string); !ok || s != t.Str {
			return bad()
		}
	case "bool":
		if b, ok := v.(bool); !ok || b != (t.Str == "1") {
			return bad()
		}
	case "null":
		if s, ok := v.(string); !ok || s != "NULL" {
			return bad()
		}
	case "date", "rfc3339":
		w, err := time.Parse(time.RFC3339, t.Str)
		if err == nil {
			if x, ok := v.(time.Time); !ok || !x.Equal(w) || x.Format(time.RFC3339Nano) != w.Format(time.RFC3339Nano) {
				return bad()
			}
		} else if s, ok := v.(string); !ok || s != t.Str {
			return bad()
		}
	case "bin", "un":
		o, ok := v.(tsl.TSLExpressionOp)
		if !ok || int(o.Operator) != opCodes[t.Op] {
			return bad()
		}
		if t.Kind == "un" {
			if o.Left != nil {
				return "a left operand of a unary operator"
			}
			return differs(o.Right, t.Kids[0])
		}
		if w := differs(o.Left, t.Kids[0]); w != "" {
			return w
		}
		return differs(o.Right, t.Kids[1])
	case "arr":
		a, ok := v.(tsl.TSLArrayLiteral)
		if !ok || len(a.Values) != len(t.Kids) {
			return bad()
		}
		for i := range t.Kids {
			if w := differs(a.Values[i], t.Kids[i]); w != "" {
				return w
			}
		}
	}
	return ""
}

func shownode(n *tsl.TSLNode) string { return fmt.Sprintf("%v %v", n.Type(), n.Value()) }

var warm sync.Once

// parseCase: the tree or the error of the real parser against the reference
func parseCase(text string) string {
	ref := gram.Parse(text)
	warm.Do(func() { tsl.ParseTSL("a = "); tsl.ParseTSL("a") })
	e0, m0 := natErrors(), natLive()
	n, err := tsl.ParseTSL(text)
	if ref == nil {
		if err == nil {
			return fmt.Sprintf("%q is accepted (as %s) but is no expression", text, shownode(n))
		}
		if n != nil {
			return fmt.Sprintf("%q: a tree and an error", text)
		}
		if d := natLive() - m0; d != 0 {
			return fmt.Sprintf("%q is rejected and leaves %d native blocks behind", text, d)
		}
		return errorCase(text, err)
	}
	if err != nil {
		return fmt.Sprintf("%q is rejected (%v) but is %s", text, err, ref)
	}
	if n == nil {
		return fmt.Sprintf("%q: no tree and no error", text)
	}
	if w := differs(n, ref); w != "" {
		return fmt.Sprintf("%q must be %s: %s", text, ref, w)
	}
	n.Free()
	if d := natLive() - m0; d != 0 {
		return fmt.Sprintf("%q: %d native blocks are left when its tree is freed", text, d)
	}
	n.Free()
	if natErrors() != e0 {
		return fmt.Sprintf("%q: native memory was freed twice or written out of bounds", text)
	}
	return ""
}

func errorCase(text string, err error) string {
	se, ok := err.(*tsl.SyntaxError)
	if !ok {
		return fmt.Sprintf("%q: the error is a %T", text, err)
	}
	if se.Input != text {
		return fmt.Sprintf("%q: the error carries the input %q", text, se.Input)
	}
	if se.Position < 0 || se.Position > len(text) {
		return fmt.Sprintf("%q: the error position %d is outside the input", text, se.Position)
	}
	if se.Message == "" {
		return fmt.Sprintf("%q: the error has no message", text)
	}
	if m := err.Error(); m == "" || !strings.Contains(m, se.Message) {
		return fmt.Sprintf("%q: the error reads %q", text, m)
	}
	return ""
}

// ---------------------------------------------------------------- operations on trees
var seedTexts = []string{"a", "1", "'s'", "true", "2020-01-01", "2020-01-01T10:00:00Z", "[]", "[1]", "[a, 'b', [2, c]]", "a = 1", "a is null", "not a", "-a", "len [1, 'x']",
	"a = 1 and b in ['x', 'y']", "not (a between 1 and 2)", "sum [1, a + 2]", "a is not null or b ~= 'x'", "-(-(-a))", "(a = 1) = (b = c)", "''", "a in [2020-01-01, 2021-01-01T00:00:00Z]", "any (a = [true, false])"}

type slot struct {
	n *tsl.TSLNode
	t *gram.Tree
}

func copyTree(t *gram.Tree) *gram.Tree {
	if t == nil {
		return nil
	}
	c := *t
	c.Kids = nil
	for _, k := range t.Kids {
		c.Kids = append(c.Kids, copyTree(k))
	}
	return &c
}

// treeOps runs a sequence of operations on a pool of trees and on their references side by side.
func treeOps(prog string) string {
	var pool []slot
	e0, l0 := natErrors(), natLive()
	check := func(step string) string {
		if natErrors() != e0 {
			return step + ": native memory was freed twice or written out of bounds"
		}
		for i, s := range pool {
			if w := differs(s.n, s.t); w != "" {
				return fmt.Sprintf("%s: tree %d: %s", step, i, w)
			}
		}
		if natErrors() != e0 {
			return step + ": native memory was freed twice or written out of bounds"
		}
		return ""
	}
	drop := func(i int) { pool = append(pool[:i:i], pool[i+1:]...) }
	for _, step := range strings.Split(prog, ";") {
		f := strings.SplitN(step, " ", 2)
		var a, b, d int
		if len(f) > 1 && f[0] != "parse" {
			fmt.Sscan(f[1], &a, &b, &d)
			if len(pool) == 0 || a >= len(pool) {
				continue
			}
		}
		at := func(s slot, path int) (*tsl.TSLNode, *gram.Tree) { // a node inside the tree: the path in base 3
			n, t := s.n, s.t
			for path > 0 && t != nil {
				k := path%3 - 1
				path /= 3
				if k < 0 || t.Kind != "bin" && t.Kind != "un" || k >= len(t.Kids) || t.Kids[k] == nil {
					break
				}
				o := n.Value().(tsl.TSLExpressionOp)
				n = o.Right
				if t.Kind == "bin" && k == 0 {
					n = o.Left
				}
				t = t.Kids[k]
			}
			return n, t
		}
		switch f[0] {
		case "parse":
			n, err := tsl.ParseTSL(f[1])
			if err != nil {
				return step + ": " + err.Error()
			}
			pool = append(pool, slot{n, gram.Parse(f[1])})
			l0 = -1 << 40 // parsing may keep memory of its own
		case "clone":
			before := natLive()
			n, t := at(pool[a], b)
			c := n.Clone()
			pool = append(pool, slot{c, copyTree(t)})
			if natLive() == before {
				return step + ": the clone has no memory of its own"
			}
		case "free":
			// a clone has the size of the tree; freeing the tree gives back exactly that
			m0 := natLive()
			c := pool[a].n.Clone()
			m1 := natLive()
			c.Free()
			m2 := natLive()
			c.Free()
			if m2 != m0 || natLive() != m2 {
				return fmt.Sprintf("%s: cloning took %d native blocks, freeing the clone gave back %d", step, m1-m0, m1-m2)
			}
			pool[a].n.Free()
			m3 := natLive()
			pool[a].n.Free()
			if m2-m3 != m1-m0 || natLive() != m3 {
				return fmt.Sprintf("%s: the tree has %d native blocks, freeing it gave back %d", step, m1-m0, m2-m3)
			}
			if pool[a].n.Clone() != nil {
				return step + ": the freed handle still has a tree"
			}
			drop(a)
		case "detachL", "detachR", "detachC":
			n, t := at(pool[a], b)
			var r *tsl.TSLNode
			k, kind := 0, "bin"
			switch f[0] {
			case "detachL":
				r = n.DetachLeft()
			case "detachR":
				r = n.DetachRight()
				k = 1
			default:
				r = n.DetachChild()
				kind = "un"
			}
			var want *gram.Tree
			if t.Kind == kind {
				want = t.Kids[k]
				t.Kids[k] = nil
			}
			if (r == nil) != (want == nil) {
				return fmt.Sprintf("%s: an operand handed back: %v, must be %v", step, r != nil, want != nil)
			}
			if r != nil {
				pool = append(pool, slot{r, want})
			}
		case "attachE":
			n, t := at(pool[a], b)
			if d >= len(pool) || d == a {
				if n.AttachElement(0, nil) {
					return step + ": attaching nothing succeeded"
				}
				break
			}
			i := b%4 - 1
			in := t.Kind == "arr" && i >= 0 && i < len(t.Kids)
			if ok := n.AttachElement(i, pool[d].n); ok != in {
				return fmt.Sprintf("%s: attaching element %d reported %v, must be %v", step, i, ok, in)
			}
			if in {
				t.Kids[i] = pool[d].t
				drop(d)
			}
		case "attachL", "attachR", "attachC":
			n, t := at(pool[a], b)
			k, kind := 0, "bin"
			att := n.AttachLeft
			switch f[0] {
			case "attachR":
				k, att = 1, n.AttachRight
			case "attachC":
				kind, att = "un", n.AttachChild
			}
			if d == 99 {
				if att(nil) {
					return step + ": attaching nothing succeeded"
				}
				break
			}
			if d == 98 {
				x := pool[a].n.Clone()
				x.Free()
				if att(x) {
					return step + ": attaching a freed tree succeeded"
				}
				break
			}
			if d >= len(pool) || d == a {
				continue
			}
			ok := att(pool[d].n)
			if ok != (t.Kind == kind) {
				return fmt.Sprintf("%s: reported %v, must be %v", step, ok, t.Kind == kind)
			}
			if ok {
				t.Kids[k] = pool[d].t
				drop(d)
			}
		}
		if w := check(step); w != "" {
			return w
		}
	}
	_ = l0
	// everything that was built is given back
	for len(pool) > 0 {
		m0 := natLive()
		c := pool[0].n.Clone()
		m1 := natLive()
		c.Free()
		m2 := natLive()
		pool[0].n.Free()
		m3 := natLive()
		if m2 != m0 || m2-m3 != m1-m0 {
			return fmt.Sprintf("at the end: the tree has %d native blocks, freeing it gave back %d, freeing its clone %d", m1-m0, m2-m3, m1-m2)
		}
		drop(0)
		if w := check("free at the end"); w != "" {
			return w
		}
	}
	return ""
}

// counted repeats a case that failed by the count of native blocks: the Go runtime has a native block of its own
// for a moment whenever it starts a thread
func counted(f func() string) string {
	w := f()
	for k := 0; k < 4 && strings.Contains(w, "native blocks"); k++ {
		time.Sleep(2 * time.Millisecond)
		w = f()
	}
	return w
}

// attachDelta: attaching over an operand releases exactly that operand
func attachDelta(text string) string {
	for _, side := range []string{"L", "R", "C"} {
		n, err := tsl.ParseTSL(text)
		if err != nil {
			return ""
		}
		defer n.Free()
		if n.Type() != tsl.KindBinaryExpr && n.Type() != tsl.KindUnaryExpr {
			return ""
		}
		o := n.Value().(tsl.TSLExpressionOp)
		x, _ := tsl.ParseTSL("x")
		old := o.Right
		att := n.AttachRight
		switch side {
		case "L":
			old, att = o.Left, n.AttachLeft
		case "C":
			att = n.AttachChild
		}
		if old == nil {
			x.Free()
			continue
		}
		m0 := natLive()
		c := old.Clone()
		size := natLive() - m0
		c.Free()
		m1 := natLive()
		if !att(x) {
			x.Free()
			continue
		}
		if d := m1 - natLive(); d != size {
			return fmt.Sprintf("attach%s to %q: the operand it replaces has %d native blocks, %d were released", side, text, size, d)
		}
	}
	return ""
}

func randOps() string {
	var l []string
	n := 2 + rng.Intn(14)
	l = append(l, "parse "+seedTexts[rng.Intn(len(seedTexts))])
	for i := 0; i < n; i++ {
		a, b, d := rng.Intn(4), rng.Intn(27), rng.Intn(5)
		if rng.Intn(8) == 0 {
			d = 98 + rng.Intn(2)
		}
		switch op := []string{"parse", "clone", "free", "detachL", "detachR", "detachC", "attachL", "attachR", "attachC", "attachE"}[rng.Intn(10)]; op {
		case "parse":
			l = append(l, "parse "+treeText(2))
		case "free":
			l = append(l, fmt.Sprintf("free %d", a))
		case "clone":
			l = append(l, fmt.Sprintf("clone %d %d", a, b))
		default:
			l = append(l, fmt.Sprintf("%s %d %d %d", op, a, b, d))
		}
	}
	return strings.Join(l, ";")
}

func treeText(d int) string {
	if d == 0 || rng.Intn(3) == 0 {
		return seedTexts[rng.Intn(len(seedTexts))]
	}
	x, y := treeText(d-1), treeText(d-1)
	switch rng.Intn(5) {
	case 0:
		return "(" + x + ") = (" + y + ")"
	case 1:
		return "not (" + x + ")"
	case 2:
		return "[" + x + ", " + y + "]"
	case 3:
		return "(" + x + ") or (" + y + ")"
	}
	return "-(" + x + ")"
}

// ---------------------------------------------------------------- concurrency and history
// sig is everything a parse of the text tells
func sig(text string) (w string) {
	defer func() {
		if r := recover(); r != nil {
			w = fmt.Sprint("panic: ", r)
		}
	}()
	n, err := tsl.ParseTSL(text)
	if err != nil {
		w = fmt.Sprintf("error %T %+v | %s", err, err, err.Error())
		if e, ok := err.(*tsl.SyntaxError); ok {
			w = fmt.Sprintf("error %q %d %q %q %q", e.Message, e.Position, e.Context, e.Input, e.Error())
		}
		if n != nil {
			w += " and a tree"
		}
		return w
	}
	if n == nil {
		return "neither a tree nor an error"
	}
	defer n.Free()
	var b strings.Builder
	var dump func(n *tsl.TSLNode)
	dump = func(n *tsl.TSLNode) {
		switch v := n.Value().(type) {
		case tsl.TSLExpressionOp:
			fmt.Fprintf(&b, "(%d", v.Operator)
			if v.Left != nil {
				b.WriteString(" ")
				dump(v.Left)
			}
			if v.Right != nil {
				b.WriteString(" ")
				dump(v.Right)
			}
			b.WriteString(")")
		case tsl.TSLArrayLiteral:
			b.WriteString("[")
			for _, x := range v.Values {
				dump(x)
				b.WriteString(" ")
			}
			b.WriteString("]")
		default:
			fmt.Fprintf(&b, "%d:%T:%q", n.Type(), v, fmt.Sprint(v))
		}
	}
	dump(n)
	return b.String()
}

var freshOf = map[string]string{}

// fresh is the signature of the text in a process that has parsed nothing before; false if there is none
func fresh(text string) (string, bool) {
	if s, ok := freshOf[text]; ok {
		return s, s != "\x00"
	}
	exe, err := os.Executable()
	s := "\x00"
	if err == nil {
		c := exec.Command(exe, "-sig")
		c.Stdin = strings.NewReader(text)
		if out, err := c.Output(); err == nil {
			s = string(out)
		}
	}
	freshOf[text] = s
	return s, s != "\x00"
}

// seqCase parses one text after the other
func seqCase(prog string) string {
	for i, t := range strings.Split(prog, "\x01") {
		want, ok := fresh(t)
		if !ok {
			return ""
		}
		if got := sig(t); got != want {
			return fmt.Sprintf("parse %d, %q: %s, in a process that parses nothing else: %s", i+1, t, got, want)
		}
	}
	return ""
}

func histCase(prog string) string {
	texts := strings.Split(prog, "\x01")
	if w := seqCase(prog); w != "" {
		return w
	}
	for _, t := range texts {
		if _, ok := fresh(t); !ok {
			return ""
		}
	}
	var wg sync.WaitGroup
	res := make([]string, 8)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(int64(g)))
			for k := 0; k < 40 && res[g] == ""; k++ {
				t := texts[r.Intn(len(texts))]
				if got := sig(t); got != freshOf[t] {
					res[g] = fmt.Sprintf("concurrently: %q: %s, alone: %s", t, got, freshOf[t])
				}
			}
		}(g)
	}
	wg.Wait()
	for _, r := range res {
		if r != "" {
			return r
		}
	}
	return ""
}

// histPool: texts that leave the scanner and the parser in all kinds of states
var histPool = []string{"", " ", "a", "a = 1", "a = 'x'", "a = 'x", "'", "\"", "`", "`a", "a = \"x\\", "a =", "= a", "a = 1 )", "( a = 1", "((((((((", "[1, 2", "[1, 2]", "a in [1, 2, 'x']", "a in [1, 2, 'x'", "a between 1 and", "a between 1 and 2",
	"a not", "not a", "a is null", "a is not", "1e", "1e5", "2020-01-01", "2020-01-0", "2020-01-01T10:00:00Z", "a = 2020-01-01T10:00:00", "\n\n\na = $", "\n\na = 1\n", "a\n=\n1", "$", "a $ b", "a = 1 $", "\x00", "a\x00", "\xff", "a = '\xff'", "a ~= 'x' and b ~! 'y'", "len a = 3 and any b", "a.b.c[1] = 'long long long long long long long text'",
	strings.Repeat("(", 300) + "a" + strings.Repeat(")", 300), strings.Repeat("(", 300), strings.Repeat("[", 250) + "1", strings.Repeat("x", 5000), "'" + strings.Repeat("x", 9000) + "'", "'" + strings.Repeat("x", 9000), strings.Repeat("a = 1 and ", 400) + "b", strings.Repeat(" ", 9000) + "a"}

func histSys(try func(*Case) bool) {
	for _, a := range histPool {
		for _, b := range histPool {
			if !try(&Case{Kind: "seq", Text: a + "\x01" + b}) {
				return
			}
		}
	}
	for i := range histPool {
		if !try(&Case{Kind: "hist", Text: strings.Join([]string{histPool[i], histPool[(i*7+3)%len(histPool)], histPool[(i*11+5)%len(histPool)], histPool[(i*13+9)%len(histPool)]}, "\x01")}) {
			return
		}
	}
}

// alikeSys: texts that are alike, one after the other: the same but for one character at the start, in the middle or at the end
func alikeSys(try func(*Case) bool) {
	forms := []string{"a = %s", "%s", "a = %s and b in [%s", "a = %s)"}
	mk := []func(n, at int, d byte) string{
		func(n, at int, d byte) string { return mark(strings.Repeat("1", n), at, '2'+d) },
		func(n, at int, d byte) string { return "0." + mark(strings.Repeat("1", n), at, '2'+d) },
		func(n, at int, d byte) string { return "'" + mark(strings.Repeat("s", n), at, 't'+d) + "'" },
		func(n, at int, d byte) string { return mark(strings.Repeat("i", n), at, 'j'+d) },
		func(n, at int, d byte) string { return "2020-01-1" + string([]byte{'0' + d}) },
		func(n, at int, d byte) string { return "2020-01-01T10:00:0" + string([]byte{'0' + d}) + "Z" },
	}
	for _, n := range []int{1, 2, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 128, 256} {
		for _, at := range []int{0, n / 2, n - 1} {
			for _, m := range mk {
				for _, f := range forms {
					x, y := strings.ReplaceAll(f, "%s", m(n, at, 0)), strings.ReplaceAll(f, "%s", m(n, at, 1))
					if !try(&Case{Kind: "seq", Text: x + "\x01" + y}) {
						return
					}
				}
				x, y := m(n, at, 0), m(n, at, 1)
				if !try(&Case{Kind: "seq", Text: "a in [" + x + ", " + y + ", " + x + "]\x01a = " + y + "k\x01a = " + x}) {
					return
				}
			}
		}
	}
}

func mark(s string, at int, c byte) string { return s[:at] + string([]byte{c}) + s[at+1:] }

// ---------------------------------------------------------------- texts
var gTokens = []string{"like", "ILIKE", "and", "or", "between", "in", "is", "null", "not", "true", "false", "len", "any", "all", "sum", "<=", "<", ">=", ">", "!=", "<>", "=", "~=", "~!",
	"2020-01-01T10:00:00Z", "2020-01-01", "1", "'s'", "x", "(", ")", ",", "+", "-", "*", "/", "%", "[", "]"}

func tokSys(maxlen int) func(try func(*Case) bool) {
	return func(try func(*Case) bool) {
		// every sequence of up to three tokens, then every insertion of a token into good expressions
		var rec func(prefix string, left int) bool
		rec = func(prefix string, left int) bool {
			if !try(&Case{Kind: "parse", Text: prefix}) {
				return false
			}
			if left == 0 {
				return true
			}
			for _, t := range gTokens {
				if !rec(strings.TrimPrefix(prefix+" "+t, " "), left-1) {
					return false
				}
			}
			return true
		}
		good := []string{"a = 1", "a between 1 and 2", "a not in [ 1 , 2 ]", "not a is null", "a + b * c - d", "a is not null and b or c", "len [ a , b , ]", "( a ) = - + b", "a not between 1 and 2 or b not like 'x' and c not ilike 'y'", "a < b <= c", "[ [ ] , [ 1 ] ]"}
		for _, g := range good {
			if !try(&Case{Kind: "parse", Text: g}) {
				return
			}
			f := strings.Fields(g)
			for i := 0; i <= len(f); i++ {
				for _, t := range gTokens {
					ins := append(append(append([]string{}, f[:i]...), t), f[i:]...)
					if !try(&Case{Kind: "parse", Text: strings.Join(ins, " ")}) {
						return
					}
					if i < len(f) {
						rep := append([]string{}, f...)
						rep[i] = t
						if !try(&Case{Kind: "parse", Text: strings.Join(rep, " ")}) {
							return
						}
					}
				}
			}
		}
		rec("", maxlen)
	}
}

var binToks = []string{"and", "or", "=", "!=", "<", "<=", ">", ">=", "~=", "~!", "like", "ilike", "not like", "not ilike", "in", "not in", "+", "-", "*", "/", "%"}

// randExpr is a random expression text, with and without parentheses, so that precedence matters
func randExpr(d int) string {
	if d <= 0 || rng.Intn(5) == 0 {
		return []string{"x", "a.b", "1", "2.5Ki", "'s'", "true", "false", "2020-01-01", "2020-01-01T10:00:00Z", "[]", "[1]", "\"q\""}[rng.Intn(12)]
	}
	switch rng.Intn(9) {
	case 0, 1, 2, 3:
		return randExpr(d-1) + " " + binToks[rng.Intn(len(binToks))] + " " + randExpr(d-1)
	case 4:
		return []string{"not ", "len ", "any ", "all ", "sum ", "- ", "+ "}[rng.Intn(7)] + randExpr(d-1)
	case 5:
		return "(" + randExpr(d-1) + ")"
	case 6:
		return randExpr(d-1) + []string{" between ", " not between "}[rng.Intn(2)] + randExpr(d-2) + " and " + randExpr(d-2)
	case 7:
		return randExpr(d-1) + []string{" is null", " is not null"}[rng.Intn(2)]
	}
	var l []string
	for i := rng.Intn(4); i >= 0; i-- {
		l = append(l, randExpr(d-2))
	}
	return "[" + strings.Join(l, ", ") + []string{"", ","}[rng.Intn(2)] + "]"
}

func mutateText(s string) string {
	b := []byte(s)
	for k := rng.Intn(3); k >= 0; k-- {
		i := rng.Intn(len(b) + 1)
		switch rng.Intn(4) {
		case 0:
			b = append(b[:i:i], append([]byte{lexBytes[rng.Intn(len(lexBytes))]}, b[i:]...)...)
		case 1:
			if i < len(b) {
				b = append(b[:i:i], b[i+1:]...)
			}
		case 2:
			t := gTokens[rng.Intn(len(gTokens))]
			b = append(b[:i:i], append([]byte(" "+t+" "), b[i:]...)...)
		case 3:
			if i < len(b) {
				b[i] = lexBytes[rng.Intn(len(lexBytes))]
			}
		}
	}
	return string(b)
}

var lexBytes = []byte("abzAZ_019.,+-*/%()[]<>=!~'\"`\\ \t\n\r\f\vkKmMgGtTpPiIeEZTnrtbf:#&|^$@?;{}\x00\x01\x7f\x80\xc3\xa9\xff")

var lexAtoms = []string{"like", "LIKE", "Ilike", "likes", "and", "AND", "android", "or", "between", "in", "is", "null", "not", "true", "false", "len", "any", "all", "sum", "x", "_x", "a.b", "a/b", "a[0]", "a[*]", "a[b-c]", "a[-]", "a[]", "a[b c]", "a-b",
	"1", "+1", "-1", "1.", "1.5", ".5", "1e3", "1E-3", "1.e+2", "1e", "1k", "1K", "1Ki", "1KI", "1kI", "1M", "1mi", "1G", "1gI", "1T", "1Ti", "1P", "1pI", "1.5Gi", "1.Ti", "-2k", "1ki2", "1e3k", "00012", "1e400", "123456789012345678901234567890",
	"2020-01-01", "2020-13-45", "2020-01-1", "12020-01-01", "2020-01-01T10:20:30Z", "2020-01-01T10:20:30.5Z", "2020-01-01T10:20:30.123456789+02:00", "2020-01-01T10:20:30-02:30", "2020-01-01T10:20:30", "2020-01-01T10:20Z", "2020-01-01t10:20:30z",
	"'a'", "''", "'a''b'", "'a\\'b'", "'\\\\'", "'\\n\\t\\r\\b\\f\\q\\`\\\"'", "'a", "a'", "\"a\\\"b\"", "\"it's\"", "`a`", "`a\\`b`", "`a b`", "'line\nbreak'", "'\\\n'", "'2020-01-01'", "'2020-01-01T10:20:30Z'", "'2020-01-01 '", "\"2020-01-01\"", "`2020-01-01T10:20:30.5+02:00`", "'2020-01-01T10:20:30,5Z'", "'2020-01-01\\n'", "'é'", "é",
	"<=", "<", ">=", ">", "!=", "<>", "=", "==", "~=", "~!", "~", "!", "(", ")", ",", "+", "-", "*", "/", "%", "[", "]", "#", "&", "\x00", "\xff", "\n", "\r\n", "\r", "\t", "\f", "\v", " "}

func lexSys(try func(*Case) bool) {
	frames := []string{"%s", "x = %s", "%s = 1", "[%s]", "x %s 1", "x in [%s,%s]", "not %s", "(%s)", "x = 1 %s", "%s %s"}
	for _, a := range lexAtoms {
		for _, f := range frames {
			if !try(&Case{Kind: "parse", Text: strings.ReplaceAll(f, "%s", a)}) {
				return
			}
		}
	}
	for _, a := range lexAtoms {
		for _, b := range lexAtoms {
			if !try(&Case{Kind: "parse", Text: a + b}) || !try(&Case{Kind: "parse", Text: "x = " + a + b}) {
				return
			}
		}
	}
	for c := 1; c < 256; c++ {
		for _, f := range []string{"%s", "a%s", "%sa", "1%s", "'%s'", "'\\%s'", "a[%s]", "a %s b", "x = 1%s", "x = 1 %s", "2020-01-0%s", "1k%s"} {
			if !try(&Case{Kind: "parse", Text: strings.ReplaceAll(f, "%s", string([]byte{byte(c)}))}) {
				return
			}
		}
	}
}

// escSys tries every short sequence of the characters that matter inside a quoted string.
func escSys(try func(*Case) bool) {
	alpha := []string{"\\", "n", "'", "\"", "0", "-"}
	level := []string{""}
	for n := 0; n < 6; n++ {
		var next []string
		for _, p := range level {
			for _, a := range alpha {
				t := p + a
				next = append(next, t)
				if !try(&Case{Kind: "parse", Text: "x = '" + t + "'"}) || n < 5 && !try(&Case{Kind: "parse", Text: "\"" + t + "\""}) {
					return
				}
			}
		}
		level = next
	}
}

var lexTrees map[string]*syntax.Regexp
var lexNames []string

// lexWord is a random text of a token pattern; some repetitions are long.
func lexWord(b *strings.Builder, r *syntax.Regexp) {
	rep := func(lo, hi int, sub *syntax.Regexp) {
		k := lo
		switch rng.Intn(12) {
		case 0, 1, 2:
			k += rng.Intn(3)
		case 3, 4, 5:
			k += 1 + rng.Intn(5)
		case 6, 7:
			k += 7 + rng.Intn(7)
		case 8:
			k += 60 + rng.Intn(8)
		case 9:
			k += 120 + rng.Intn(140)
		case 10:
			if rng.Intn(20) == 0 {
				k += 1000 + rng.Intn(9000)
			}
		}
		if hi >= 0 && k > hi {
			k = lo + rng.Intn(hi-lo+1)
		}
		for ; k > 0; k-- {
			lexWord(b, sub)
		}
	}
	switch r.Op {
	case syntax.OpLiteral:
		for _, c := range r.Rune {
			if r.Flags&syntax.FoldCase != 0 && c < 128 && rng.Intn(2) == 0 {
				c = []rune(strings.ToUpper(string(c)))[0]
			}
			b.WriteByte(byte(c))
		}
	case syntax.OpCharClass:
		for {
			var c byte
			switch rng.Intn(4) {
			case 0:
				c = byte(1 + rng.Intn(255))
			case 1:
				c = lexBytes[rng.Intn(len(lexBytes))]
			default:
				k := 2 * rng.Intn(len(r.Rune)/2)
				lo, hi := r.Rune[k], r.Rune[k+1]
				if lo > 255 {
					continue
				}
				if hi > 255 {
					hi = 255
				}
				c = byte(lo) + byte(rng.Intn(int(hi-lo)+1))
			}
			for k := 0; k < len(r.Rune); k += 2 {
				if rune(c) >= r.Rune[k] && rune(c) <= r.Rune[k+1] && c != 0 {
					b.WriteByte(c)
					return
				}
			}
		}
	case syntax.OpCapture:
		lexWord(b, r.Sub[0])
	case syntax.OpConcat:
		for _, s := range r.Sub {
			lexWord(b, s)
		}
	case syntax.OpAlternate:
		lexWord(b, r.Sub[rng.Intn(len(r.Sub))])
	case syntax.OpStar:
		rep(0, -1, r.Sub[0])
	case syntax.OpPlus:
		rep(1, -1, r.Sub[0])
	case syntax.OpQuest:
		rep(0, 1, r.Sub[0])
	case syntax.OpRepeat:
		rep(r.Min, r.Max, r.Sub[0])
	}
}

// lexToken is a random token or nearly one.
func lexToken() string {
	if lexTrees == nil {
		lexTrees = map[string]*syntax.Regexp{}
		for n, re := range gram.Patterns() {
			t, err := syntax.Parse(re.String(), syntax.Perl)
			if err == nil {
				lexTrees[n] = t.Simplify()
				lexNames = append(lexNames, n)
			}
		}
		sort.Strings(lexNames)
	}
	n := lexNames[rng.Intn(len(lexNames))]
	if rng.Intn(2) == 0 {
		n = []string{"RFC3339", "DATE", "NUMERIC_LITERAL", "STRING_LITERAL", "IDENTIFIER"}[rng.Intn(5)]
	}
	var b strings.Builder
	lexWord(&b, lexTrees[n])
	s := b.String()
	if (n == "RFC3339" || n == "DATE") && rng.Intn(2) == 0 {
		s = "'" + s + "'"
	}
	if rng.Intn(4) == 0 && len(s) > 0 {
		k := rng.Intn(len(s))
		switch rng.Intn(3) {
		case 0:
			s = s[:k] + s[k+1:]
		case 1:
			s = s[:k] + string([]byte{lexBytes[rng.Intn(len(lexBytes))]}) + s[k:]
		default:
			s = s[:k] + string([]byte{lexBytes[rng.Intn(len(lexBytes))]}) + s[k+1:]
		}
	}
	return s
}

func lexRand() *Case {
	var b strings.Builder
	switch rng.Intn(5) {
	case 2:
		return &Case{Kind: "parse", Text: "x = " + lexToken()}
	case 3:
		t := []string{"%s", "%s = 1", "x = %s", "[%s]", "a %s b", "%s%s", "x = %s %s", "x = %s%s", "not %s", "[%s,%s]"}[rng.Intn(10)]
		for strings.Contains(t, "%s") {
			t = strings.Replace(t, "%s", strings.ReplaceAll(lexToken(), "%", "_"), 1)
		}
		return &Case{Kind: "parse", Text: t}
	case 0:
		b.WriteString("x = ")
		fallthrough
	case 1:
		for k := rng.Intn(5); k >= 0; k-- {
			b.WriteString(lexAtoms[rng.Intn(len(lexAtoms))])
			if rng.Intn(2) == 0 {
				b.WriteByte(' ')
			}
		}
	default:
		return &Case{Kind: "parse", Text: mutateText(randExpr(2))}
	}
	return &Case{Kind: "parse", Text: b.String()}
}

func dictTexts(try func(*Case) bool) {
	for _, s := range dict.Texts {
		if !try(&Case{Kind: "parse", Text: string(s)}) {
			return
		}
	}
	for _, s := range dict.Str {
		for _, f := range []string{"%s", "x = '%s'", "%s = 1", "%s 1 "} {
			if !try(&Case{Kind: "parse", Text: strings.ReplaceAll(f, "%s", s)}) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- long inputs
var longForms = []struct {
	pre, mid, post string
	wrap           func(t *gram.Tree) *gram.Tree
}{
	{"(", "x", ")", func(t *gram.Tree) *gram.Tree { return t }},
	{"[", "x", "]", func(t *gram.Tree) *gram.Tree { return &gram.Tree{Kind: "arr", Kids: []*gram.Tree{t}} }},
	{"not ", "x", "", func(t *gram.Tree) *gram.Tree { return &gram.Tree{Kind: "un", Op: "K_NOT", Kids: []*gram.Tree{t}} }},
	{"- ", "x", "", func(t *gram.Tree) *gram.Tree { return &gram.Tree{Kind: "un", Op: "UMINUS", Kids: []*gram.Tree{t}} }},
	{"", "x", " and y", func(t *gram.Tree) *gram.Tree {
		return &gram.Tree{Kind: "bin", Op: "K_AND", Kids: []*gram.Tree{t, {Kind: "ident", Str: "y"}}}
	}},
	{"", "x", " - y", func(t *gram.Tree) *gram.Tree {
		return &gram.Tree{Kind: "bin", Op: "MINUS", Kids: []*gram.Tree{t, {Kind: "ident", Str: "y"}}}
	}},
	{"(", "x", " < y)", func(t *gram.Tree) *gram.Tree {
		return &gram.Tree{Kind: "bin", Op: "LT", Kids: []*gram.Tree{t, {Kind: "ident", Str: "y"}}}
	}},
}

// longCase: nesting n deep; the tree is known without the reference parser
func longCase(form, n int) string {
	f := longForms[form]
	text := strings.Repeat(f.pre, n) + f.mid + strings.Repeat(f.post, n)
	ref := &gram.Tree{Kind: "ident", Str: "x"}
	for i := 0; i < n; i++ {
		ref = f.wrap(ref)
	}
	t, err := tsl.ParseTSL(text)
	if err != nil {
		return fmt.Sprintf("%q repeated %d times around x is rejected: %v", f.pre+f.post, n, err)
	}
	defer t.Free()
	// from the outside inwards, without cloning at every level
	for n := 0; ref.Kind != "ident"; n++ {
		if int(t.Type()) != kindCodes[ref.Kind] {
			return fmt.Sprintf("%q repeated around x: kind %v at depth %d", f.pre+f.post, t.Type(), n)
		}
		if ref.Kind == "arr" {
			a := t.Value().(tsl.TSLArrayLiteral).Values
			if len(a) != 1 {
				return fmt.Sprintf("%q repeated around x: %d elements at depth %d", f.pre+f.post, len(a), n)
			}
			t, ref = a[0], ref.Kids[0]
			continue
		}
		o := t.Value().(tsl.TSLExpressionOp)
		if int(o.Operator) != opCodes[ref.Op] {
			return fmt.Sprintf("%q repeated around x: operator %v at depth %d", f.pre+f.post, o.Operator, n)
		}
		if ref.Kind == "bin" {
			if w := differs(o.Right, ref.Kids[1]); w != "" {
				return w
			}
			t = o.Left
		} else {
			t = o.Right
		}
		ref = ref.Kids[0]
	}
	return differs(t, ref)
}

// wideCase: an array of n elements
func wideCase(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "%d,", i)
	}
	t, err := tsl.ParseTSL("[" + b.String() + "]")
	if err != nil {
		return fmt.Sprintf("an array of %d elements is rejected: %v", n, err)
	}
	defer t.Free()
	c := t.Clone()
	defer c.Free()
	for _, x := range []*tsl.TSLNode{t, c} {
		a := x.Value().(tsl.TSLArrayLiteral).Values
		if len(a) != n {
			return fmt.Sprintf("an array of %d elements has %d", n, len(a))
		}
		for i, e := range a {
			if v := e.Value(); v != float64(i) {
				return fmt.Sprintf("element %d of the array [0,1,2,...] of %d elements is %v", i, n, v)
			}
		}
	}
	return ""
}

func wideSys(try func(*Case) bool) {
	for _, n := range []int{2, 10, 64, 127, 128, 129, 255, 256, 257, 300, 1030} {
		if !try(&Case{Kind: "wide", Text: strconv.Itoa(n)}) {
			return
		}
	}
}

func longSys(try func(*Case) bool) {
	for _, n := range []int{30, 190, 199, 200, 201, 203, 300, 399, 401, 900, 2500} {
		for f := range longForms {
			if !try(&Case{Kind: "long", Text: strconv.Itoa(f) + " " + strconv.Itoa(n)}) {
				return
			}
		}
	}
	// a long text that goes on with something wrong
	for _, n := range []int{3, 14} {
		for _, f := range longForms {
			for _, tail := range []string{" 1", ")", "]", " and", " #", "("} {
				if !try(&Case{Kind: "parse", Text: strings.Repeat(f.pre, n) + f.mid + strings.Repeat(f.post, n) + tail}) {
					return
				}
			}
		}
	}
}

func init() {
	fragile["parse"], fragile["ops"], fragile["attach"], fragile["seq"], fragile["hist"], fragile["long"], fragile["wide"] = true, true, true, true, true, true, true
	kinds["parse"] = func(c *Case) string { return counted(func() string { return parseCase(c.Text) }) }
	kinds["ops"] = func(c *Case) string { return counted(func() string { return treeOps(c.Text) }) }
	kinds["attach"] = func(c *Case) string { return counted(func() string { return attachDelta(c.Text) }) }
	kinds["long"] = func(c *Case) string {
		var f, n int
		fmt.Sscan(c.Text, &f, &n)
		return longCase(f, n)
	}
	kinds["wide"] = func(c *Case) string { n, _ := strconv.Atoi(c.Text); return wideCase(n) }
	kinds["hist"] = func(c *Case) string { return histCase(c.Text) }
	kinds["seq"] = func(c *Case) string { return seqCase(c.Text) }
	// every operator over every pair of small operands
	kidTexts := []string{"a", "b.c", "1", "1.25", "1.75", "-2", "'s'", "'t'", "true", "false", "2020-01-01", "2020-01-02", "2020-01-01T10:00:00Z", "[]", "[1]", "[not true, -(1)]", "(not true)", "(-(1))", "(a = 1)", "(x is null)"}
	var nodeTexts []string
	for _, o := range binToks {
		nodeTexts = append(nodeTexts, "%s "+o+" %s")
	}
	nodeTexts = append(nodeTexts, "%s is null", "%s is not null", "x between %s and %s", "x not between %s and %s", "[%s, %s]", "[%s]")
	for _, o := range []string{"not", "len", "any", "all", "sum", "-", "+"} {
		nodeTexts = append(nodeTexts, o+" (%s)")
	}
	opSys := func(ops []string) func(try func(*Case) bool) {
		return func(try func(*Case) bool) {
			for _, f := range nodeTexts {
				for _, x := range kidTexts {
					for _, y := range kidTexts {
						s := strings.Replace(f, "%s", x, 1)
						third := y
						if strings.Contains(s, "%s") {
							s = strings.Replace(s, "%s", y, 1)
							third = kidTexts[(len(x)*7+len(y))%len(kidTexts)]
						}
						for _, o := range ops {
							for _, z := range []string{third, x, y} {
								if !try(&Case{Kind: "ops", Text: "parse " + s + ";parse " + z + ";" + o + " 0 0 1"}) {
									return
								}
								if o[0] != 'a' {
									break
								}
							}
						}
					}
				}
			}
			for _, s := range seedTexts {
				if !try(&Case{Kind: "attach", Text: s}) {
					return
				}
				for _, o := range ops {
					for b := 0; b < 9; b++ {
						for _, pre := range []string{"", "clone 0 0;"} {
							for _, d := range []string{"1", "98", "99"} {
								if !try(&Case{Kind: "ops", Text: "parse " + s + ";parse y = 'z';" + pre + o + " 0 " + strconv.Itoa(b) + " " + d}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
	rops := func() *Case { return &Case{Kind: "ops", Text: randOps()} }
	props["T01"] = &prop{sys: func(try func(*Case) bool) {
		for _, s := range seedTexts {
			if !try(&Case{Kind: "parse", Text: s}) {
				return
			}
		}
		wideSys(try)
		lexSys(try)
	}, rnd: func() *Case { return &Case{Kind: "parse", Text: randExpr(1 + rng.Intn(4))} }}
	props["T02"] = &prop{sys: opSys([]string{"clone", "free"}), rnd: rops}
	props["T03"] = &prop{sys: opSys([]string{"detachL", "detachR", "detachC", "attachL", "attachR", "attachC", "attachE"}), rnd: rops}
	props["L01"] = &prop{sys: func(try func(*Case) bool) { wideSys(try); tokSys(2)(try); longSys(try); tokSys(3)(try) }, rnd: func() *Case {
		return &Case{Kind: "parse", Text: randExpr(1 + rng.Intn(5))}
	}}
	props["L02"] = &prop{sys: func(try func(*Case) bool) { dictTexts(try); escSys(try); lexSys(try) }, rnd: lexRand}
	props["L03"] = &prop{sys: func(try func(*Case) bool) { dictTexts(try); tokSys(1)(try); lexSys(try); longSys(try) }, rnd: func() *Case { return &Case{Kind: "parse", Text: mutateText(randExpr(1 + rng.Intn(4)))} }}
	var pool []string
	props["L04"] = &prop{sys: func(try func(*Case) bool) { alikeSys(try); histSys(try) }, rnd: func() *Case {
		if len(pool) < 150 {
			t := randExpr(1 + rng.Intn(3))
			if rng.Intn(2) == 0 {
				t = mutateText(t)
			}
			pool = append(pool, strings.ReplaceAll(t, "\x01", ""))
		}
		var l []string
		for k := 0; k < 6; k++ {
			l = append(l, pool[rng.Intn(len(pool))])
		}
		if rng.Intn(3) > 0 {
			return &Case{Kind: "seq", Text: strings.Join(l, "\x01")}
		}
		return &Case{Kind: "hist", Text: strings.Join(l, "\x01")}
	}}
}
