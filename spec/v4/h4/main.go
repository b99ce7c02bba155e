// Command h4 runs the contracts of /verif/spec against the real v4 code on concrete
// inputs: it replays counterexamples and searches for a failing input when an
// obligation is not discharged. It decides nothing by itself.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"
	"unicode/utf8"
)

// Case is one concrete input.
type Case struct {
	Prop string            `json:"prop"`
	Kind string            `json:"kind"`
	Text string            `json:"text"`
	Raw  []byte            `json:"raw,omitempty"` // the text when it is not UTF-8
	Rec  map[string]*VJ    `json:"rec,omitempty"`
	Tree *NJ               `json:"tree,omitempty"`
	Arg  map[string]string `json:"arg,omitempty"`
	Why  string            `json:"why,omitempty"`
}

// Dict holds the constants occurring in the code under test.
type Dict struct {
	Str []string  `json:"str"`
	Num []float64 `json:"num"`
	// texts the verifier derived from obligations that failed
	Texts [][]byte `json:"texts"`
}

var dict Dict
var rng *rand.Rand

// prop is a search for one property: systematic cases, then random ones.
type prop struct {
	sys  func(try func(*Case) bool)
	rnd  func() *Case
	eval func(*Case) string // "" or what fails
}

var props = map[string]*prop{}
var kinds = map[string]func(*Case) string{}

func run(c *Case) (why string) {
	defer func() {
		if r := recover(); r != nil {
			why = fmt.Sprintf("panic: %v", r)
		}
	}()
	return kinds[c.Kind](c)
}

func main() {
	p := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	budget := flag.Float64("budget", 3, "seconds")
	dictf := flag.String("dict", "", "")
	replay := flag.String("replay", "", "")
	out := flag.String("out", "", "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	list := flag.Bool("list", false, "")
	flag.Parse()
	if *list {
		var l []string
		for k := range props {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, " "))
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var c Case
		if err := json.Unmarshal(b, &c); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if c.Raw != nil {
			c.Text = string(c.Raw)
		}
		w := run(&c)
		if w != "" {
			fmt.Println("FAIL", w)
			os.Exit(1)
		}
		fmt.Println("PASS")
		return
	}
	if *dictf != "" {
		if b, err := os.ReadFile(*dictf); err == nil {
			_ = json.Unmarshal(b, &dict)
		}
	}
	rng = rand.New(rand.NewSource(*seed*1000 + int64(*shard)))
	ps := props[*p]
	if ps == nil {
		fmt.Println(`{"n":0,"distinct":0}`)
		return
	}
	deadline := time.Now().Add(time.Duration(*budget * float64(time.Second)))
	n, nontriv := 0, 0
	seen := map[string]bool{}
	var samples []string
	var fail *Case
	try := func(c *Case) bool {
		if n%64 == 0 && time.Now().After(deadline) {
			return false
		}
		c.Prop = *p
		if c.Tree != nil {
			c.Text = c.Tree.String()
		}
		if !utf8.ValidString(c.Text) {
			c.Raw = []byte(c.Text)
		}
		n++
		k := c.Text + "\x00" + recString(c.Rec) + fmt.Sprint(c.Arg)
		if len(seen) < 4000000 && !seen[k] {
			seen[k] = true
			nontriv++
			if len(samples) < 5 && nontriv%977 == 1 {
				samples = append(samples, fmt.Sprintf("%s  with %s", c.Text, recString(c.Rec)))
			}
		}
		if w := run(c); w != "" {
			c.Why = w
			fail = c
			return false
		}
		return true
	}
	if ps.sys != nil {
		i := 0
		ps.sys(func(c *Case) bool {
			i++
			if i%*shards != *shard {
				return true
			}
			return try(c)
		})
	}
	for ps.rnd != nil && fail == nil && time.Now().Before(deadline) {
		try(ps.rnd())
	}
	res := map[string]interface{}{"n": n, "distinct": nontriv, "samples": samples}
	if fail != nil {
		res["fail"] = fail
		if *out != "" {
			b, _ := json.MarshalIndent(fail, "", " ")
			_ = os.WriteFile(*out, b, 0644)
		}
	}
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println(string(b))
}
