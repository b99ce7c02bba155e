package main

import (
	"encoding/json"
	"fmt"

	"gopkg.in/yaml.v3"

	"verif/gh"
	"verif/spec6/marsh"
)

func init() {
	gh.YAMLHook = func(v interface{}) gh.J {
		b, err := yaml.Marshal(v)
		if err != nil {
			return "not YAML: " + err.Error()
		}
		var x interface{}
		if err := yaml.Unmarshal(b, &x); err != nil {
			return "not YAML: " + err.Error()
		}
		return x
	}
	kinds["marshal"] = func(c *Case) string {
		n, err := parse(c.Text)
		if err != nil {
			return ""
		}
		b, err := json.Marshal(n)
		if !marsh.PostJSON(n, b, err) {
			return fmt.Sprintf("the JSON of %q is %s, error %v; the contract requires %v (representable: %v)", c.Text, b, err, marsh.Enc(n), marsh.OK(n))
		}
		if b2, err2 := n.MarshalJSON(); !marsh.PostJSON(n, b2, err2) {
			return fmt.Sprintf("MarshalJSON of %q is %s, error %v; the contract requires %v", c.Text, b2, err2, marsh.Enc(n))
		}
		if !yamlSafe(marsh.Enc(n)) {
			return "" // a string the YAML library itself does not round-trip
		}
		v, err := n.MarshalYAML()
		if !marsh.PostYAML(n, v, err) {
			return fmt.Sprintf("the YAML of %q is %v, error %v; the contract requires %v", c.Text, gh.YAMLOf(v), err, marsh.Enc(n))
		}
		if x := gh.YAMLOf(n); !gh.JSame(x, marsh.Enc(n)) {
			return fmt.Sprintf("the YAML of %q is %v; the contract requires %v", c.Text, x, marsh.Enc(n))
		}
		return ""
	}
	props["M01"] = &prop{sys: sqlSys("marshal"), rnd: func() *Case { return &Case{Kind: "marshal", Text: sqlExpr(1 + rng.Intn(4))} }}
}

func yamlSafe(d gh.J) bool {
	switch x := d.(type) {
	case map[string]interface{}:
		for _, y := range x {
			if !yamlSafe(y) {
				return false
			}
		}
	case []interface{}:
		for _, y := range x {
			if !yamlSafe(y) {
				return false
			}
		}
	case string:
		return gh.JSame(gh.YAMLOf(x), x) && gh.JSame(gh.YAMLOf(map[string]interface{}{"v": x}), map[string]interface{}{"v": x})
	}
	return true
}
