package raml

//use: common.go
//bound: arrays of up to 3 (thorough 4) symbolic integers, arrays of arrays / of objects nested to depth 2, objects over three named properties plus up to two extra keys, one or two pattern properties, unions of up to 3 members nested up to depth 2, recursion unrolled to depth 3; min/max counts over all of uint64, integer facets and values over all of int64, every presence combination of facets and keys
//bound: the verdict on objects is checked under every iteration order of the instance map (up to 3 entries)
//assume: pattern properties together with additionalProperties:false are rejected by the check phase (documented) and are outside the property
//assume: a key matched by several pattern properties is accepted when any of them accepts it (documented: the first one to validate prevails)

import (
	"strings"
	"unicode/utf8"
)

var _ = vReg("VH_C02_array", VH_C02_array)
var _ = vReg("VH_C02_array_unique", VH_C02_array_unique)
var _ = vReg("VH_C02_array_kind", VH_C02_array_kind)
var _ = vReg("VH_C02_array_nested", VH_C02_array_nested)
var _ = vReg("VH_C02_object_props", VH_C02_object_props)
var _ = vReg("VH_C02_object_counts", VH_C02_object_counts)
var _ = vReg("VH_C02_object_pattern", VH_C02_object_pattern)
var _ = vReg("VH_C02_object_pattern2", VH_C02_object_pattern2)
var _ = vReg("VH_C02_object_order", VH_C02_object_order)
var _ = vReg("VH_C02_object_nested", VH_C02_object_nested)
var _ = vReg("VH_C02_object_kind", VH_C02_object_kind)
var _ = vReg("VH_C02_union", VH_C02_union)
var _ = vReg("VH_C02_union_nested", VH_C02_union_nested)
var _ = vReg("VH_C02_union_props", VH_C02_union_props)
var _ = vReg("VH_C02_recursive", VH_C02_recursive)

func c02Max() int {
	if vThorough {
		return 4
	}
	return 3
}

func VH_C02_array() {
	doc := "types:\n  T:\n    type: array\n"
	hasMin, hasMax, hasItems := ndBool("hasMinItems"), ndBool("hasMaxItems"), ndBool("hasItems")
	var mn, mx uint64
	var lo int64
	if hasMin {
		mn = ndUint("minItems")
		doc += "    minItems: " + vPlace(mn) + "\n"
	}
	if hasMax {
		mx = ndUint("maxItems")
		doc += "    maxItems: " + vPlace(mx) + "\n"
	}
	if hasItems {
		lo = ndInt("lo")
		doc += "    items:\n      type: integer\n      minimum: " + vPlace(lo) + "\n"
	}
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "array type parses")
	n := ndChoice(c02Max()+1, "len")
	v := make([]any, n)
	all := true
	for i := range v {
		x := ndInt("x")
		v[i] = x
		all = vAnd(all, x >= lo)
	}
	want := vAnd(vOr(!hasMin, uint64(n) >= mn), vOr(!hasMax, uint64(n) <= mx), vOr(!hasItems, all))
	vAssert(vOK(b, v) == want, "array accepts exactly the declared length and items")
}

func VH_C02_array_unique() {
	uq := ndChoice(3, "uniqueItems")
	doc := "types:\n  T:\n    type: array\n    items: any\n"
	if uq > 0 {
		doc += "    uniqueItems: " + []string{"", "false", "true"}[uq] + "\n"
	}
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "array type parses")
	n := ndChoice(c02Max()+1, "len")
	v := make([]any, n)
	xs := make([]int64, n)
	kind := ndChoice(3, "kind")
	distinct := true
	for i := range v {
		xs[i] = ndInt("x")
		switch kind {
		case 0:
			v[i] = xs[i]
		case 1:
			v[i] = []any{xs[i], "k"}
		case 2:
			v[i] = map[string]any{"k": xs[i], "l": true}
		}
		for j := 0; j < i; j++ {
			distinct = vAnd(distinct, xs[i] != xs[j])
		}
	}
	vAssert(vOK(b, v) == vOr(uq != 2, distinct), "uniqueItems rejects exactly arrays with equal items")
}

var _ = vReg("VH_C02_array_unique_kinds", VH_C02_array_unique_kinds)

// c02Pairs are items that look alike; only some are equal.
func c02Pairs(x int64, s string) []struct {
	a, b any
	same bool
} {
	type p = struct {
		a, b any
		same bool
	}
	return []p{
		{"1", int64(1), false}, {true, "true", false}, {nil, "null", false}, {nil, "", false}, {nil, "<nil>", false}, {nil, false, false}, {int64(0), false, false},
		{[]any{}, map[string]any{}, false}, {[]any{}, nil, false}, {[]any{nil}, []any{}, false}, {map[string]any{"a": nil}, map[string]any{}, false},
		{[]any{int64(1)}, []any{"1"}, false}, {[]any{int64(1), int64(2)}, []any{"1 2"}, false}, {[]any{int64(1), int64(2)}, []any{int64(2), int64(1)}, false},
		{[]any{[]any{int64(1)}, int64(2)}, []any{int64(1), []any{int64(2)}}, false}, {[]any{"a,b"}, []any{"a", "b"}, false}, {[]any{int64(1)}, int64(1), false},
		{map[string]any{"a": int64(1)}, map[string]any{"a": "1"}, false}, {map[string]any{"a": int64(1)}, map[string]any{"b": int64(1)}, false},
		{map[string]any{"a": "b c:d"}, map[string]any{"a": "b", "c": "d"}, false}, {"a", "A", false}, {"a", "a ", false}, {"\u00e9", "e\u0301", false},
		{map[string]any{"a": int64(1), "b": "x"}, map[string]any{"b": "x", "a": int64(1)}, true}, {[]any{nil, true}, []any{nil, true}, true}, {nil, nil, true}, {"", "", true},
		{1.5, 1.5, true}, {1.5, 1.25, false}, {"1.5", 1.5, false}, {int64(9007199254740993), int64(9007199254740992), false},
		{x, int64(7), x == 7}, {[]any{x}, []any{"7"}, false}, {s, "a", s == "a"}, {map[string]any{"k": s}, map[string]any{"k": nil}, false},
		{map[string]any{s: true}, map[string]any{"a": true}, s == "a"}, {[]any{s, "b"}, []any{"a", s}, vAnd(s == "a", s == "b")},
	}
}

// VH_C02_array_unique_kinds: items of different kinds are not equal, whatever they look like.
func VH_C02_array_unique_kinds() {
	x, s := ndInt("x"), ndAtom(3)
	doc := "types:\n  T:\n    type: array\n    uniqueItems: true\n"
	if ndBool("items") {
		doc += "    items: any\n"
	}
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "array type parses")
	l := c02Pairs(x, s)
	p := l[ndChoice(len(l), "pair")]
	other := "unlike"
	v := [][]any{{p.a, p.b}, {p.b, p.a}, {p.a, other, p.b}, {other, p.b, p.a}}[ndChoice(4, "order")]
	vAssume(s != other)
	vAssert(vOK(b, v) == !p.same, "uniqueItems rejects exactly arrays with equal items")
}

// c02Any returns a value of one of several kinds.
func c02Any(name string) (v any, kind int) {
	kind = ndChoice(8, name)
	switch kind {
	case 0:
		return nil, kind
	case 1:
		return ndBool(name + ".b"), kind
	case 2:
		return ndInt(name + ".i"), kind
	case 3:
		return ndAtom(8), kind
	case 4:
		return []any{}, kind
	case 5:
		return []any{ndInt(name + ".i0")}, kind
	case 6:
		return map[string]any{}, kind
	}
	return map[string]any{"a": ndInt(name + ".a")}, kind
}

func VH_C02_array_kind() {
	b, err := vUnwrapped("types:\n  T:\n    type: array\n    items: integer\n  I: string[]\n  N: nil[]\n", "T")
	vAssert(err == nil, "array type parses")
	v, k := c02Any("v")
	vAssert(vOK(b, v) == vOr(k == 4, k == 5), "integer array accepts exactly arrays of integers")
	w, wk := c02Any("w")
	vAssert(vOK(b, []any{int64(1), w}) == (wk == 2), "every item is validated")
	vAssert(vOK(b, []any{w, int64(1)}) == (wk == 2), "every item is validated")
	b, err = vUnwrapped("types:\n  T: string[]\n", "T")
	vAssert(err == nil, "array expression parses")
	vAssert(vOK(b, []any{w}) == (wk == 3), "string array accepts exactly arrays of strings")
}

func VH_C02_array_nested() {
	lo, hi, mi := ndInt("lo"), ndInt("hi"), ndUint("innerMin")
	doc := "types:\n  T:\n    type: array\n    items:\n      type: array\n      minItems: " + vPlace(mi) + "\n      items:\n        type: integer\n        minimum: " + vPlace(lo) + "\n        maximum: " + vPlace(hi) + "\n"
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "nested array type parses")
	n := ndChoice(3, "outer")
	v := make([]any, n)
	want := true
	for i := range v {
		m := ndChoice(3, "inner")
		in := make([]any, m)
		for j := range in {
			x := ndInt("x")
			in[j] = x
			want = vAnd(want, x >= lo, x <= hi)
		}
		want = vAnd(want, uint64(m) >= mi)
		v[i] = in
	}
	vAssert(vOK(b, v) == want, "nested arrays are validated at every level")
}

// VH_C02_object_props: required and optional properties, additionalProperties.
func VH_C02_object_props() {
	doc := "types:\n  T:\n    type: object\n"
	ap := ndChoice(3, "additionalProperties")
	if ap > 0 {
		doc += "    additionalProperties: " + []string{"", "false", "true"}[ap] + "\n"
	}
	doc += "    properties:\n"
	names := []string{"a", "b", "c"}
	var req [3]bool
	var lo [3]int64
	for i, n := range names {
		lo[i] = ndInt("lo")
		switch ndChoice(4, "form") {
		case 0:
			req[i] = true
			doc += "      " + n + ":\n        type: integer\n"
		case 1:
			doc += "      " + n + "?:\n        type: integer\n"
		case 2:
			req[i] = true
			doc += "      " + n + ":\n        required: true\n        type: integer\n"
		case 3:
			doc += "      " + n + ":\n        type: integer\n        required: false\n"
		}
		doc += "        minimum: " + vPlace(lo[i]) + "\n"
	}
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "object type parses")
	v := map[string]any{}
	want := true
	for i, n := range names {
		if ndBool("has " + n) {
			x := ndInt(n)
			v[n] = x
			want = vAnd(want, x >= lo[i])
		} else {
			want = vAnd(want, !req[i])
		}
	}
	if ndBool("extra") {
		v[[]string{"d", "a?", "A"}[ndChoice(3, "key")]] = "anything"
		want = vAnd(want, ap != 1)
	}
	vAssert(vOK(b, v) == want, "object accepts exactly the declared properties")
}

func VH_C02_object_counts() {
	doc := "types:\n  T:\n    type: object\n"
	hasMin, hasMax := ndBool("hasMin"), ndBool("hasMax")
	var mn, mx uint64
	if hasMin {
		mn = ndUint("minProperties")
		doc += "    minProperties: " + vPlace(mn) + "\n"
	}
	if hasMax {
		mx = ndUint("maxProperties")
		doc += "    maxProperties: " + vPlace(mx) + "\n"
	}
	if ndBool("declared") {
		doc += "    properties:\n      a?: any\n"
	}
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "object type parses")
	v := map[string]any{}
	for _, k := range []string{"a", "b", "c"} {
		if ndBool("has " + k) {
			v[k] = nil
		}
	}
	n := uint64(len(v))
	vAssert(vOK(b, v) == vAnd(vOr(!hasMin, n >= mn), vOr(!hasMax, n <= mx)), "object accepts exactly the declared number of properties")
}

func VH_C02_object_pattern() {
	lo, hi := ndInt("lo"), ndInt("hi")
	doc := "types:\n  T:\n    type: object\n    properties:\n      xa?:\n        type: integer\n        minimum: " + vPlace(lo) + "\n      /^x/:\n        type: integer\n        maximum: " + vPlace(hi) + "\n"
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "object type parses")
	key := []string{"xa", "xb", "x", "ax", "b", ""}[ndChoice(6, "key")]
	x := ndInt("x")
	v := map[string]any{key: x}
	want := true
	switch {
	case key == "xa":
		want = x >= lo
	case strings.HasPrefix(key, "x"):
		want = x <= hi
	}
	vAssert(vOK(b, v) == want, "a pattern property constrains exactly the matching undeclared keys")
	vAssert(!vOK(b, map[string]any{"xb": "s"}), "a pattern property constrains the kind")
	vAssert(vOK(b, map[string]any{"b": "s"}), "other keys are free")
}

func VH_C02_object_pattern2() {
	lo, hi := ndInt("lo"), ndInt("hi")
	doc := "types:\n  T:\n    type: object\n    additionalProperties: true\n    properties:\n      /^x/:\n        type: integer\n        maximum: " + vPlace(hi) + "\n      /y$/:\n        type: integer\n        minimum: " + vPlace(lo) + "\n"
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "object type parses")
	v := map[string]any{}
	want := true
	for _, key := range []string{"x", "y", "xy", "z"} {
		if !ndBool("has " + key) {
			continue
		}
		x := ndInt(key)
		v[key] = x
		px, py := strings.HasPrefix(key, "x"), strings.HasSuffix(key, "y")
		want = vAnd(want, vOr(vAnd(!px, !py), vAnd(px, x <= hi), vAnd(py, x >= lo)))
	}
	vAssert(vOK(b, v) == want, "a key is accepted when one of the matching pattern properties accepts it")
}

// VH_C02_object_order: the verdict does not depend on the iteration order of the instance map.
func VH_C02_object_order() {
	lo, hi := ndInt("lo"), ndInt("hi")
	doc := "types:\n  T:\n    type: object\n    properties:\n      a:\n        type: integer\n        minimum: " + vPlace(lo) + "\n      b?:\n        type: object\n        properties:\n          p: integer\n          q?: string\n      /^x/:\n        type: integer\n        maximum: " + vPlace(hi) + "\n      /^xy/:\n        type: integer\n        minimum: " + vPlace(lo) + "\n"
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "object type parses")
	a, x := ndInt("a"), ndInt("x")
	v := map[string]any{"a": a}
	want := a >= lo
	switch ndChoice(3, "b") {
	case 1:
		v["b"] = map[string]any{"p": ndInt("p"), "q": "s"}
	case 2:
		v["b"] = map[string]any{"p": ndInt("p"), "q": ndInt("q")}
		want = false
	}
	switch ndChoice(3, "x") {
	case 1:
		v["xz"] = x
		want = vAnd(want, x <= hi)
	case 2:
		v["xyz"] = x
		want = vAnd(want, vOr(x <= hi, x >= lo))
	}
	vMapOrder(true)
	got := vOK(b, v)
	vMapOrder(false)
	vAssert(got == want, "the verdict is the same under every map iteration order")
}

func VH_C02_object_nested() {
	lo := ndInt("lo")
	doc := "types:\n  P:\n    type: object\n    additionalProperties: false\n    properties:\n      n:\n        type: integer\n        minimum: " + vPlace(lo) + "\n      s?: string\n  T:\n    type: object\n    properties:\n      p?: P\n      l?:\n        type: array\n        items: P\n        maxItems: 2\n"
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "object type parses")
	want := true
	mk := func() map[string]any {
		m := map[string]any{}
		if ndBool("has n") {
			x := ndInt("n")
			m["n"] = x
			want = vAnd(want, x >= lo)
		} else {
			want = false
		}
		switch ndChoice(3, "s") {
		case 1:
			m["s"] = ndAtom(6)
		case 2:
			m["t"] = true
			want = false
		}
		return m
	}
	v := map[string]any{}
	if ndBool("has p") {
		v["p"] = mk()
	}
	if ndBool("has l") {
		n := ndChoice(4, "len")
		l := make([]any, n)
		for i := range l {
			if i == 0 {
				l[i] = mk()
			} else {
				x := ndInt("n")
				l[i] = map[string]any{"n": x}
				want = vAnd(want, x >= lo)
			}
		}
		want = vAnd(want, n <= 2)
		v["l"] = l
	}
	vAssert(vOK(b, v) == want, "nested objects are validated at every level")
}

func VH_C02_object_kind() {
	b, err := vUnwrapped("types:\n  T:\n    type: object\n", "T")
	vAssert(err == nil, "object type parses")
	v, k := c02Any("v")
	vAssert(vOK(b, v) == (k >= 6), "object accepts exactly objects")
	b, err = vUnwrapped("types:\n  T:\n    type: object\n    properties:\n      a: nil\n      b: any\n", "T")
	vAssert(err == nil, "object type parses")
	vAssert(vOK(b, map[string]any{"a": v, "b": v}) == (k == 0), "a property with a nil value is present")
	vAssert(!vOK(b, map[string]any{"a": nil}), "a missing property of type any is missing")
}

func VH_C02_union() {
	lo, hi, ml := ndInt("lo"), ndInt("hi"), ndUint("maxLength")
	doc := "types:\n  I:\n    type: integer\n    minimum: " + vPlace(lo) + "\n    maximum: " + vPlace(hi) + "\n  S:\n    type: string\n    maxLength: " + vPlace(ml) + "\n  A:\n    type: array\n    items: I\n    minItems: 1\n"
	form := ndChoice(4, "form")
	doc += "  T: " + []string{"I | S | A", "S | A | I", "I | A", "A | S"}[form] + "\n"
	hasI, hasS := form != 3, form != 2
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "union type parses")
	v, k := c02Any("v")
	want := false
	switch k {
	case 2:
		x := v.(int64)
		want = vAnd(hasI, x >= lo, x <= hi)
	case 3:
		want = vAnd(hasS, uint64(utf8.RuneCountInString(v.(string))) <= ml)
	case 5:
		x := v.([]any)[0].(int64)
		want = vAnd(x >= lo, x <= hi)
	}
	vAssert(vOK(b, v) == want, "a union accepts exactly what one of its members accepts")
}

func VH_C02_union_nested() {
	a, c, d := ndInt("a"), ndInt("c"), ndInt("d")
	doc := "types:\n  A:\n    type: integer\n    maximum: " + vPlace(a) + "\n  C:\n    type: integer\n    minimum: " + vPlace(c) + "\n  D:\n    type: integer\n    enum: [" + vPlace(d) + "]\n  U: A | C\n"
	doc += "  T: " + []string{"U | D", "D | U", "D | (A | C)", "(D | A) | C"}[ndChoice(4, "form")] + "\n"
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "nested union parses")
	x := ndInt("x")
	vAssert(vOK(b, x) == vOr(x <= a, x >= c, x == d), "a nested union accepts exactly what one of its leaves accepts")
	b, err = vUnwrapped(doc+"  L:\n    type: array\n    items: T\n", "L")
	vAssert(err == nil, "array of unions parses")
	y := ndInt("y")
	in := func(x int64) bool { return vOr(x <= a, x >= c, x == d) }
	vAssert(vOK(b, []any{x, y}) == vAnd(in(x), in(y)), "each array item is matched with the union on its own")
}

func VH_C02_union_props() {
	lo, hi := ndInt("lo"), ndInt("hi")
	doc := "types:\n  X:\n    type: object\n    properties:\n      k:\n        type: integer\n        minimum: " + vPlace(lo) + "\n      x: string\n  Y:\n    type: object\n    additionalProperties: false\n    properties:\n      k:\n        type: integer\n        maximum: " + vPlace(hi) + "\n      y?: boolean\n  T: X | Y\n"
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "union of objects parses")
	k := ndInt("k")
	v := map[string]any{"k": k}
	hasX, hasY := ndBool("has x"), ndBool("has y")
	if hasX {
		v["x"] = ndAtom(5)
	}
	if hasY {
		v["y"] = true
	}
	vAssert(vOK(b, v) == vOr(vAnd(k >= lo, hasX), vAnd(k <= hi, !hasX)), "a union of objects accepts exactly what one of them accepts")
}

// VH_C02_recursive: a recursive type validates its recursive occurrences.
func VH_C02_recursive() {
	lo := ndInt("lo")
	doc := "types:\n  T:\n    type: object\n    properties:\n      n:\n        type: integer\n        minimum: " + vPlace(lo) + "\n      next?: T\n      kids?:\n        type: array\n        items: T\n"
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "recursive type parses")
	want := true
	mk := func(child any) map[string]any {
		x := ndInt("n")
		want = vAnd(want, x >= lo)
		m := map[string]any{"n": x}
		if child != nil {
			if ndBool("as list") {
				m["kids"] = []any{child, map[string]any{"n": x}}
			} else {
				m["next"] = child
			}
		}
		return m
	}
	depth := 1 + ndChoice(3, "depth")
	var v any
	for i := 0; i < depth; i++ {
		v = mk(v)
	}
	vAssert(vOK(b, v) == want, "recursive types are validated at every depth")
	vAssert(!vOK(b, map[string]any{"n": lo, "next": "s"}), "a recursive occurrence is validated")
}
