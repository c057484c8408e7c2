package raml

//use: common.go
//bound: 13 ways for a type to reach its point of use (inline, inline in parentheses, named, alias, chain of aliases, parent without facets, library reference, library alias, two libraries, data type include, data type using a library, grouped expression, single-parent list) times 7 points of use times 5 kinds of types (one that inherits from an integer and a union and is narrowed to one member or none); symbolic facet values and instances over int64 / uint64 / opaque strings

import (
	"strings"
	"unicode/utf8"
)

var _ = vReg("VH_C07_integer", VH_C07_integer)
var _ = vReg("VH_C07_string", VH_C07_string)
var _ = vReg("VH_C07_object", VH_C07_object)
var _ = vReg("VH_C07_array", VH_C07_array)
var _ = vReg("VH_C07_union", VH_C07_union)
var _ = vReg("VH_C07_several", VH_C07_several)
var _ = vReg("VH_C07_kinds", VH_C07_kinds)
var _ = vReg("VH_C07_metadata", VH_C07_metadata)
var _ = vReg("VH_C07_spelling", VH_C07_spelling)

// c07Beside holds the declarations that the type needs beside it.
var c07Beside string

// c07Way returns how the type with the given declaration lines is written at its point of
// use (indented declaration or expression) and the library-level declarations it needs.
func c07Way(decl []string) (use []string, uses, types string) {
	ind := func(n int) string {
		s := ""
		for _, l := range decl {
			s += strings.Repeat(" ", n) + l + "\n"
		}
		return s
	}
	named := "  A:\n" + ind(4) + c07Beside
	libA := func(name string) { vFile(name, "#%RAML 1.0 Library\ntypes:\n"+named) }
	way := ndChoice(13, "way")
	if c07Beside != "" && (way == 8 || way == 12) {
		// A data type file declares one type, and a list is not put in parentheses.
		way = 9
	}
	switch way {
	case 0:
		return decl, "", c07Beside
	case 1:
		return []string{"type: A"}, "", named
	case 2:
		return []string{"A"}, "", named
	case 3:
		return []string{"B3"}, "", "  B3: B2\n" + named + "  B2: A\n"
	case 4:
		return []string{"B"}, "", "  B:\n    type: A\n" + named
	case 5:
		libA("l.raml")
		return []string{"l.A"}, "uses:\n  l: l.raml\n", ""
	case 6:
		libA("l.raml")
		return []string{"B"}, "uses:\n  l: l.raml\n", "  B: l.A\n"
	case 7:
		libA("l.raml")
		vFile("m.raml", "#%RAML 1.0 Library\nuses:\n  n: l.raml\ntypes:\n  M: n.A\n")
		return []string{"m.M"}, "uses:\n  m: m.raml\n", ""
	case 8:
		vFile("d.raml", "#%RAML 1.0 DataType\n"+ind(0))
		return []string{"!include d.raml"}, "", ""
	case 9:
		libA("l.raml")
		vFile("d.raml", "#%RAML 1.0 DataType\nuses:\n  k: l.raml\ntype: k.A\n")
		return []string{"!include d.raml"}, "", ""
	case 10:
		return []string{"(A)"}, "", named
	case 11:
		return []string{"[A]"}, "", named
	}
	par := make([]string, len(decl))
	for i, l := range decl {
		if strings.HasPrefix(l, "type: ") {
			l = "type: ((" + l[6:] + "))"
		}
		par[i] = l
	}
	return par, "", c07Beside
}

// c07Use places the type at one of the points of use; wrap builds an instance.
func c07Use(decl []string) (doc string, wrap func(any) any) {
	use, uses, types := c07Way(decl)
	// the type written as the value of a key at indentation n
	at := func(n int) string {
		if len(use) == 1 && !strings.Contains(use[0], ":") {
			return " " + use[0] + "\n"
		}
		s := "\n"
		for _, l := range use {
			s += strings.Repeat(" ", n+2) + l + "\n"
		}
		return s
	}
	head := uses + "types:\n"
	tail := types
	if ndBool("types first") {
		head, tail = head+types, ""
	}
	switch ndChoice(6, "site") {
	case 0:
		return head + "  C:" + at(2) + tail, func(v any) any { return v }
	case 1:
		return head + "  C:\n    type: object\n    properties:\n      p:" + at(6) + tail, func(v any) any { return map[string]any{"p": v} }
	case 2:
		return head + "  C:\n    type: object\n    properties:\n      /^p/:" + at(6) + tail, func(v any) any { return map[string]any{"pq": v} }
	case 3:
		return head + "  C:\n    type: array\n    items:" + at(4) + tail, func(v any) any { return []any{v, v} }
	case 4:
		return head + "  D:\n    type: object\n    properties:\n      p:" + at(6) + "  C:\n    type: D\n    description: c\n" + tail, func(v any) any { return map[string]any{"p": v} }
	}
	return head + "  D:\n    type: array\n    items:" + at(4) + "  C: D\n" + tail, func(v any) any { return []any{v} }
}

func c07Parse(doc string) *BaseShape {
	r, err := ParseFromString("#%RAML 1.0 Library\n"+doc, "lib.raml", vDir(), OptWithUnwrap())
	vAssert(err == nil, "every way to refer to a type is accepted")
	return vGet(r, "C")
}

func VH_C07_integer() {
	lo, hi := ndInt("lo"), ndInt("hi")
	b, wrap := c07UseParse([]string{"type: integer", "minimum: " + vPlace(lo), "maximum: " + vPlace(hi)})
	x := ndInt("x")
	vAssert(vOK(b, wrap(x)) == vAnd(x >= lo, x <= hi), "an integer type means the same wherever it comes from")
	vAssert(!vOK(b, wrap("s")), "the kind is the same wherever the type comes from")
}

func c07UseParse(decl []string) (*BaseShape, func(any) any) {
	doc, wrap := c07Use(decl)
	return c07Parse(doc), wrap
}

func VH_C07_string() {
	lo, hi := ndUint("lo"), ndUint("hi")
	b, wrap := c07UseParse([]string{"type: string", "minLength: " + vPlace(lo), "maxLength: " + vPlace(hi)})
	s := ndAtom(9)
	n := uint64(utf8.RuneCountInString(s))
	vAssert(vOK(b, wrap(s)) == vAnd(n >= lo, n <= hi), "a string type means the same wherever it comes from")
	vAssert(!vOK(b, wrap(true)), "the kind is the same wherever the type comes from")
}

func VH_C07_object() {
	lo, n := ndInt("lo"), ndUint("n")
	b, wrap := c07UseParse([]string{"type: object", "minProperties: " + vPlace(n), "additionalProperties: false", "properties:", "  a:", "    type: integer", "    minimum: " + vPlace(lo), "  b?: string"})
	x := ndInt("x")
	v := map[string]any{"a": x}
	switch ndChoice(3, "value") {
	case 0:
		vAssert(vOK(b, wrap(v)) == vAnd(x >= lo, n <= 1), "an object type means the same wherever it comes from")
	case 1:
		v["b"] = "s"
		vAssert(vOK(b, wrap(v)) == vAnd(x >= lo, n <= 2), "an object type means the same wherever it comes from")
	case 2:
		v["c"] = "s"
		vAssert(!vOK(b, wrap(v)), "an object type is as closed wherever it comes from")
	}
}

func VH_C07_array() {
	lo, n, m := ndInt("lo"), ndUint("n"), ndUint("m")
	b, wrap := c07UseParse([]string{"type: array", "minItems: " + vPlace(n), "maxItems: " + vPlace(m), "uniqueItems: true", "items:", "  type: integer", "  minimum: " + vPlace(lo)})
	x, y := ndInt("x"), ndInt("y")
	vAssert(vOK(b, wrap([]any{x, y})) == vAnd(x >= lo, y >= lo, n <= 2, m >= 2, x != y), "an array type means the same wherever it comes from")
}

func VH_C07_union() {
	lo, hi := ndInt("lo"), ndInt("hi")
	vFile("i.raml", "#%RAML 1.0 DataType\ntype: integer\nminimum: "+vPlace(lo)+"\n")
	vFile("j.raml", "#%RAML 1.0 Library\ntypes:\n  J:\n    type: integer\n    maximum: "+vPlace(hi)+"\n  U: J | string\n")
	doc := []string{
		"uses: {j: j.raml}\ntypes:\n  I: !include i.raml\n  C: I | j.U\n",
		"uses: {j: j.raml}\ntypes:\n  I:\n    type: !include i.raml\n  C: I | j.J | string\n",
		"uses: {j: j.raml}\ntypes:\n  C: (I | string) | j.J\n  I: !include i.raml\n",
		"uses: {j: j.raml}\ntypes:\n  C:\n    type: V\n  V: I | J | S\n  J: j.J\n  S: string\n  I: !include i.raml\n",
		"uses: {j: j.raml}\ntypes:\n  C: V\n  V: j.U | W\n  W: I | I\n  I: !include i.raml\n",
	}[ndChoice(5, "form")]
	b := c07Parse(doc)
	x := ndInt("x")
	vAssert(vOK(b, x) == vOr(x >= lo, x <= hi), "a union means the same wherever its members come from")
	vAssert(vOK(b, "s"), "every member of a nested union is a member")
	vAssert(!vOK(b, true), "a union has no other members")
}

// VH_C07_kinds: kinds without numeric facets, with what each of them accepts.
// VH_C07_several: a type that becomes a union, or one member of it, when it inherits from several types.
func VH_C07_several() {
	a := ndInt("a")
	c07Beside = "  V: {type: integer, minimum: 10, maximum: 100}\n  U: V | W\n  W: {type: integer, minimum: 20, maximum: 200}\n  N: integer\n"
	defer func() { c07Beside = "" }()
	decl := []string{"type: [N, U]"}
	if ndBool("facet") {
		vAssume(a >= 10)
		decl = append(decl, "minimum: "+vPlace(a))
	} else {
		vAssume(a == 10)
	}
	b, wrap := c07UseParse(decl)
	x := ndInt("x")
	want := vAnd(x >= a, x <= 100)
	if len(decl) == 1 || a >= 20 {
		want = vAnd(x >= a, x <= 200)
	}
	vAssert(vOK(b, wrap(x)) == want, "a type with several parents means the same wherever it comes from")
	vAssert(!vOK(b, wrap("s")), "the kind is the same wherever the type comes from")
}

func VH_C07_kinds() {
	kinds := []struct {
		decl      []string
		good, bad any
	}{
		{[]string{"type: boolean", "enum: [true]"}, true, false},
		{[]string{"type: nil"}, nil, "x"},
		{[]string{"type: date-only"}, "2020-02-03", "2020-02-30"},
		{[]string{"type: time-only"}, "10:11:12", "25:11:12"},
		{[]string{"type: datetime-only"}, "2020-02-03T10:11:12", "2020-02-03"},
		{[]string{"type: datetime", "format: rfc2616"}, "Mon, 03 Feb 2020 10:11:12 GMT", "2020-02-03T10:11:12Z"},
		{[]string{"type: datetime"}, "2020-02-03T10:11:12Z", "2020-02-03"},
		{[]string{"type: number", "enum: [1.5, 2]"}, 1.5, 2.5},
		{[]string{"type: string", "pattern: ^a+$"}, "aa", "ab"},
		{[]string{"type: string", "enum: [q, r]"}, "r", "s"},
		{[]string{"type: integer", "enum: [1, 5]"}, int64(5), int64(4)},
		{[]string{"enum: [1, 5]", "type: integer"}, int64(1), "1"},
		{[]string{"type: string?"}, nil, true},
		{[]string{"type: integer[]"}, []any{int64(1)}, []any{"1"}},
		{[]string{"properties:", "  a: integer"}, map[string]any{"a": int64(1)}, map[string]any{"a": "x"}},
		{[]string{"minItems: 1"}, []any{true}, []any{}},
		{[]string{"minimum: 3"}, 3.5, 2.5},
		{[]string{"pattern: ^a"}, "a", "b"},
	}
	k := kinds[ndChoice(len(kinds), "kind")]
	b, wrap := c07UseParse(k.decl)
	vAssert(vOK(b, wrap(k.good)), "a value of the type is accepted wherever the type comes from")
	vAssert(!vOK(b, wrap(k.bad)), "other values are rejected wherever the type comes from")
}

// VH_C07_metadata: an alias has all the facets of what it refers to.
func VH_C07_metadata() {
	lo, n := ndInt("lo"), ndInt("n")
	decls := []string{
		"    type: integer\n    minimum: " + vPlace(lo) + "\n    format: int32\n    multipleOf: 2\n",
		"    type: string\n    minLength: 3\n    maxLength: 9\n    pattern: ^a\n    enum: [abc, abcd]\n",
		"    type: number\n    minimum: 1.5\n    maximum: 2.5\n    format: float\n    enum: [2]\n    multipleOf: 0.5\n",
		"    type: file\n    fileTypes: [a/b]\n    minLength: 1\n    maxLength: 2\n",
		"    type: object\n    minProperties: 1\n    maxProperties: 5\n    additionalProperties: false\n    properties:\n      a?: string\n      b: integer[]\n    discriminator: b2\n",
		"    type: object\n    properties:\n      a?: string\n      /^p/: integer[]\n",
		"    type: array\n    minItems: 1\n    maxItems: 5\n    uniqueItems: true\n    items: number\n",
		"    type: boolean\n    enum: [false]\n",
		"    type: datetime\n    format: rfc3339\n",
		"    type: string | integer\n",
	}
	k := ndChoice(len(decls), "kind")
	decl := decls[k]
	common := "    description: d\n    displayName: n\n    (an): " + vPlace(n) + "\n    facets:\n      f?: integer\n"
	an := "annotationTypes:\n  an: integer\n"
	var doc string
	switch ndChoice(5, "way") {
	case 0:
		doc = an + "types:\n  A:\n" + decl + common + "  C: A\n"
	case 1:
		doc = an + "types:\n  C: B\n  B: A\n  A:\n" + decl + common
	case 2:
		vFile("l.raml", "#%RAML 1.0 Library\n"+an+"types:\n  A:\n"+decl+common)
		doc = "uses:\n  l: l.raml\ntypes:\n  A: l.A\n  C: l.A\n"
	case 3:
		doc = an + "types:\n  A:\n" + decl + common + "  C:\n    type: object\n    properties:\n      c: A\n"
	case 4:
		doc = an + "types:\n  C: A[]\n  A:\n" + decl + common
	}
	c := c07Parse(doc)
	r, err := ParseFromString("#%RAML 1.0 Library\n"+an+"types:\n  C:\n"+decl+common, "lib.raml", vDir(), OptWithUnwrap())
	vAssert(err == nil, "the library is well formed")
	a := vGet(r, "C")
	switch t := c.Shape.(type) {
	case *ObjectShape:
		if p, ok := t.Properties.Get("c"); ok {
			c = p.Base
		}
	case *ArrayShape:
		if k != 6 || t.MinItems == nil {
			c = t.Items
		}
	}
	vAssert(c.Type == a.Type, "an alias has the kind of its type")
	for _, n := range append([]string{"description", "items", "properties"}, vFacetNames...) {
		vAssert(vFacet(c, n) == vFacet(a, n), "an alias has the facets of its type: "+n)
	}
	vAssert(c.DisplayName != nil && *c.DisplayName == "n", "an alias has the display name of its type")
	e, ok := c.CustomDomainProperties.Get("an")
	vAssert(ok, "an alias has the annotations of its type")
	vAssert(int64(e.Extension.Value.(int)) == n, "an alias has the annotation values of its type")
	_, ok = c.CustomShapeFacetDefinitions.Get("f")
	vAssert(ok, "an alias has the custom facet definitions of its type")
	if u, isU := c.Shape.(*UnionShape); isU {
		vAssert(len(u.AnyOf) == 2, "an alias has the members of its type")
	}
}

// VH_C07_spelling: shorthand and long forms of the same declaration.
func VH_C07_spelling() {
	n := ndUint("n")
	forms := [][]string{
		{"string[]", "\n    type: array\n    items: string\n", "\n    type: string[]\n", "\n    items: string\n", "\n    type: array\n    items:\n      type: string\n", "(string)[]"},
		{"string | nil", "string?", "\n    type: string | nil\n", "\n    type: string?\n", "(string | nil)"},
		{"\n    minItems: " + vPlace(n) + "\n", "\n    type: array\n    minItems: " + vPlace(n) + "\n", "\n    minItems: " + vPlace(n) + "\n    type: array\n"},
		{"\n    properties:\n      a?: string\n", "\n    type: object\n    properties:\n      a?: string\n", "\n    properties:\n      a:\n        required: false\n", "\n    properties:\n      a:\n        type: string\n        required: false\n", "\n    properties:\n      a?:\n"},
		{"", "string", "\n    type: string\n", "\n    description: only\n", "\n    type:\n"},
	}
	f := forms[ndChoice(len(forms), "declaration")]
	s := f[ndChoice(len(f), "form")]
	if !strings.HasSuffix(s, "\n") {
		s = " " + s + "\n"
	}
	b := c07Parse("types:\n  C:" + s)
	base := f[0]
	if !strings.HasSuffix(base, "\n") {
		base = " " + base + "\n"
	}
	a := c07Parse("types:\n  C:" + base)
	vals := []any{nil, "s", true, []any{}, []any{"s"}, []any{true, true}, map[string]any{}, map[string]any{"a": "s"}, map[string]any{"a": true}, map[string]any{"a": nil}}
	v := vals[ndChoice(len(vals), "value")]
	x := vOK(a, v)
	vAssert(vOK(b, v) == x, "shorthand and long forms mean the same")
}
