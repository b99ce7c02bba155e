package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
)

// VJ is a record value in JSON.
type VJ struct {
	T string `json:"t"`
	S string `json:"s,omitempty"`
	A []*VJ  `json:"a,omitempty"`
}

func (v *VJ) String() string {
	if v.T == "array" {
		var l []string
		for _, x := range v.A {
			l = append(l, x.String())
		}
		return "[" + strings.Join(l, ",") + "]"
	}
	return v.T + "(" + strconv.Quote(v.S) + ")"
}

func recString(r map[string]*VJ) string {
	var ks []string
	for k := range r {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var l []string
	for _, k := range ks {
		l = append(l, k+"="+r[k].String())
	}
	return strings.Join(l, " ")
}

type other struct{ X int }

func (v *VJ) val() interface{} {
	f := func() float64 {
		x, _ := strconv.ParseFloat(v.S, 64)
		return x
	}
	i := func() int64 {
		x, _ := strconv.ParseInt(v.S, 10, 64)
		return x
	}
	u := func() uint64 {
		x, _ := strconv.ParseUint(v.S, 10, 64)
		return x
	}
	switch v.T {
	case "float64":
		return f()
	case "float32":
		return float32(f())
	case "int":
		return int(i())
	case "int8":
		return int8(i())
	case "int16":
		return int16(i())
	case "int32":
		return int32(i())
	case "int64":
		return i()
	case "uint":
		return uint(u())
	case "uint8":
		return uint8(u())
	case "uint16":
		return uint16(u())
	case "uint32":
		return uint32(u())
	case "uint64":
		return u()
	case "string":
		return v.S
	case "bool":
		return v.S == "true"
	case "nil":
		return nil
	case "time":
		t, err := time.Parse(time.RFC3339Nano, v.S)
		if err != nil {
			panic(err)
		}
		return t
	case "array":
		// with spare room, so that an append to the caller's array shows
		a := make([]interface{}, len(v.A), len(v.A)+2)
		for i, x := range v.A {
			a[i] = x.val()
		}
		a[:cap(a)][len(a)] = "spare"
		return a
	case "map":
		return map[string]interface{}{"k": v.S}
	case "struct":
		return other{int(i())}
	case "strings":
		l := []string{}
		for _, x := range v.A {
			l = append(l, x.S)
		}
		return l
	}
	panic("unknown type " + v.T)
}

func nv(t string, x interface{}) *VJ { return &VJ{T: t, S: fmt.Sprint(x)} }
func fv(x float64) *VJ               { return &VJ{T: "float64", S: strconv.FormatFloat(x, 'g', -1, 64)} }
func sv(s string) *VJ                { return &VJ{T: "string", S: s} }
func av(l ...*VJ) *VJ                { return &VJ{T: "array", A: l} }

var strVals = []string{"", "a", "b", "A", "abc", "ABC", "a.c", "a_c", "a%c", "(", "[a-z]+", "^a", "a$", "line1\nline2", "\n", "true", "false", "nil", "null",
	"1", "10", "1.5", "2020-01-01", "2020-01-02", "2020-01-01T00:00:00Z", "2020-01-01T02:00:00+02:00", "2020-01-01T00:00:00.5Z", "2020-01-01T02:00:00-02:00", "2020-01-01T03:00:00-01:00", "2020-01-01T00:00:00,0Z", "2020-01-01T02:00:00,0+02:00", "2020-13-01", "2020-1-1", "0", "-1",
	"héllo", "x*", "a+b", "\\d", "100%", "aXc", "abcabc", "ÄÖ", "äö", " a", "a ",
	strings.Repeat("ab", 10), strings.Repeat("_", 20), strings.Repeat("a%", 10), strings.Repeat("a_", 10), strings.Repeat("x.", 40)}

var numVals = []*VJ{fv(0), fv(1), fv(-1), fv(0.5), fv(-0.5), fv(1.5), fv(2), fv(3), fv(7), fv(10), fv(100), fv(1e300), fv(-1e300), fv(math.Inf(1)), fv(math.Inf(-1)), fv(math.NaN()), fv(math.Copysign(0, -1)),
	fv(9007199254740993), fv(1e-320), fv(2147483648), fv(9.3e18),
	nv("float32", 0.1), nv("float32", 1), nv("float32", 16777216),
	nv("int", 0), nv("int", 1), nv("int", -7), nv("int", 10), nv("int", 9007199254740993), nv("int", math.MaxInt64), nv("int", math.MinInt64),
	nv("int8", -128), nv("int8", 1), nv("int16", -300), nv("int16", 1), nv("int32", 70000), nv("int32", 1), nv("int64", -9007199254740993), nv("int64", 1), nv("uint", 3), nv("uint", uint64(math.MaxUint64)),
	nv("uint8", 200), nv("uint8", 1), nv("uint16", 60000), nv("uint16", 1), nv("uint32", uint32(4000000000)), nv("uint32", 1), nv("uint64", uint64(math.MaxUint64)), nv("uint64", 1),
	fv(123456789), fv(float64(float32(0.1))), nv("int", 123456789), nv("int32", 123456789), nv("int64", 123456789), nv("uint", 123456789), nv("uint32", 123456789), nv("uint64", 123456789)}

var timeVals = []*VJ{nv("time", "2020-01-01T00:00:00Z"), nv("time", "2020-01-02T00:00:00Z"), nv("time", "2020-01-01T02:00:00+02:00"), nv("time", "2020-01-01T00:00:00.000000001Z"), nv("time", "1960-06-01T12:30:00Z"), nv("time", "2019-12-31T22:00:00-02:00"), nv("time", "2020-01-01T00:00:00-05:00")}

var otherVals = []*VJ{nv("bool", true), nv("bool", false), {T: "nil"}, {T: "map", S: "a"}, nv("struct", 1), {T: "strings", A: []*VJ{sv("a")}}, {T: "strings"}, {T: "strings", A: []*VJ{sv("x"), sv("a"), sv("b")}}}

func scalars() []*VJ {
	var l []*VJ
	for _, s := range strVals {
		l = append(l, sv(s))
	}
	l = append(l, numVals...)
	l = append(l, timeVals...)
	l = append(l, otherVals...)
	for i, s := range dict.Str {
		if i < 40 {
			l = append(l, sv(s))
		}
	}
	for i, x := range dict.Num {
		if i < 40 {
			l = append(l, fv(x))
			if x == math.Trunc(x) && math.Abs(x) < 1e15 {
				l = append(l, nv("int", int64(x)), nv("int64", int64(x)))
			}
		}
	}
	return l
}

func rval(depth int) *VJ {
	sc := scalars()
	if depth > 0 && rng.Intn(4) == 0 {
		n := rng.Intn(5)
		a := make([]*VJ, n)
		for i := range a {
			a[i] = rval(depth - 1)
		}
		return av(a...)
	}
	switch rng.Intn(5) {
	case 0:
		return fv(float64(rng.Intn(20) - 10))
	case 1:
		return nv([]string{"int", "int8", "int16", "int32", "int64"}[rng.Intn(5)], rng.Intn(100)-50)
	case 2:
		n := rng.Intn(5)
		s := ""
		for i := 0; i < n; i++ {
			s += string([]rune("ab%_.A*\n")[rng.Intn(8)])
		}
		return sv(s)
	}
	return sc[rng.Intn(len(sc))]
}
