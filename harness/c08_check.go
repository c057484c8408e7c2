package raml

//use: common.go place.go
//bound: every checked facet pair of every kind with symbolic values over the full 64-bit ranges, enum and fileTypes entries of up to two values of six kinds, discriminators; at 13 places a type can be declared (type, annotation type, property, pattern property, item, nested two levels, union member, included data type, used library, custom facet definition), directly or split between a parent and a child, validated with and without prior unwrapping
//assume: enum values need not satisfy the other facets of their type; contradictions that need arithmetic over nested facets (an array of at most n items that must ...) are not looked for

import "strings"

var _ = vReg("VH_C08_bounds", VH_C08_bounds)
var _ = vReg("VH_C08_number_bounds", VH_C08_number_bounds)
var _ = vReg("VH_C08_enum", VH_C08_enum)
var _ = vReg("VH_C08_file_types", VH_C08_file_types)
var _ = vReg("VH_C08_discriminator", VH_C08_discriminator)
var _ = vReg("VH_C08_discriminator_split", VH_C08_discriminator_split)
var _ = vReg("VH_C08_pattern_closed", VH_C08_pattern_closed)
var _ = vReg("VH_C08_inherited", VH_C08_inherited)
var _ = vReg("VH_C08_format", VH_C08_format)
var _ = vReg("VH_C08_recursive", VH_C08_recursive)
var _ = vReg("VH_C08_check", VH_C08_check)

// c08Valid reports whether a library is valid.
func c08Valid(doc string) bool {
	opts := []ParseOpt{OptWithValidate()}
	if ndBool("unwrap first") {
		opts = append(opts, OptWithUnwrap())
	}
	_, err := ParseFromString("#%RAML 1.0 Library\n"+doc, "lib.raml", vDir(), opts...)
	return err == nil
}

func VH_C08_bounds() {
	kinds := []struct{ kind, lo, hi string }{
		{"integer", "minimum", "maximum"}, {"string", "minLength", "maxLength"}, {"array", "minItems", "maxItems"},
		{"object", "minProperties", "maxProperties"}, {"file", "minLength", "maxLength"},
	}
	k := kinds[ndChoice(len(kinds), "kind")]
	decl := []string{"type: " + k.kind}
	ok := true
	has := ndChoice(4, "declared")
	if k.kind == "integer" {
		lo, hi := ndInt("lo"), ndInt("hi")
		if has&1 != 0 {
			decl = append(decl, k.lo+": "+vPlace(lo))
		}
		if has&2 != 0 {
			decl = append(decl, k.hi+": "+vPlace(hi))
		}
		ok = vOr(has != 3, lo <= hi)
	} else {
		lo, hi := ndUint("lo"), ndUint("hi")
		if has&1 != 0 {
			decl = append(decl, k.lo+": "+vPlace(lo))
		}
		if has&2 != 0 {
			decl = append(decl, k.hi+": "+vPlace(hi))
		}
		ok = vOr(has != 3, lo <= hi)
	}
	vAssert(c08Valid(vDecl(decl, ndChoice(vPlaces, "place"))) == ok, "a library is rejected exactly when a minimum exceeds its maximum")
}

func VH_C08_number_bounds() {
	vals := []struct {
		t string
		v float64
	}{{"-1e300", -1e300}, {"-0.5", -0.5}, {"0", 0}, {"0.25", 0.25}, {"0.5", 0.5}, {"7", 7}, {"1e300", 1e300}}
	lo, hi := vals[ndChoice(len(vals), "lo")], vals[ndChoice(len(vals), "hi")]
	decl := []string{"type: number", "minimum: " + lo.t, "maximum: " + hi.t}
	vAssert(c08Valid(vDecl(decl, ndChoice(vPlaces, "place"))) == (lo.v <= hi.v), "a library is rejected exactly when a minimum exceeds its maximum")
}

// c08Values: enum entries and the kinds they suit.
var c08Values = []struct {
	text                          string
	integer, number, str, boolean bool
}{
	{"5", true, true, false, false},
	{"-9223372036854775808", true, true, false, false},
	{"18446744073709551615", true, true, false, false},
	{"1.5", false, true, false, false},
	{"s", false, false, true, false},
	{"\"5\"", false, false, true, false},
	{"\"\"", false, false, true, false},
	{"true", false, false, false, true},
	{"null", false, false, false, false},
	{"[1]", false, false, false, false},
	{"{a: 1}", false, false, false, false},
}

func VH_C08_enum() {
	kinds := []string{"integer", "number", "string", "boolean"}
	k := ndChoice(4, "kind")
	n := ndChoice(3, "entries")
	ok := true
	var l []string
	for i := 0; i < n; i++ {
		v := c08Values[ndChoice(len(c08Values), "value")]
		l = append(l, v.text)
		ok = ok && []bool{v.integer, v.number, v.str, v.boolean}[k]
	}
	place := []int{0, 2, 5, 8, 13}[ndChoice(5, "place")]
	vAssert(c08Valid(vDecl([]string{"type: " + kinds[k], "enum: [" + strings.Join(l, ", ") + "]"}, place)) == ok, "a library is rejected exactly when an enum value is of another kind")
}

func VH_C08_file_types() {
	n := ndChoice(3, "entries")
	ok := true
	var l []string
	for i := 0; i < n; i++ {
		v := c08Values[ndChoice(len(c08Values), "value")]
		l = append(l, v.text)
		ok = ok && v.str
	}
	place := []int{0, 2, 4}[ndChoice(3, "place")]
	vAssert(c08Valid(vDecl([]string{"type: file", "fileTypes: [" + strings.Join(l, ", ") + "]"}, place)) == ok, "a library is rejected exactly when a file type is not a string")
}

func VH_C08_discriminator() {
	types := []struct {
		t      string
		scalar bool
	}{{"string", true}, {"integer", true}, {"boolean", true}, {"number", true}, {"date-only", true}, {"object", false}, {"string[]", false}, {"string | integer", false}, {"array", false}}
	p := ndChoice(len(types)+2, "property")
	val := ndChoice(4, "value")
	x, lo := ndInt("x"), ndInt("lo")
	decl := []string{"type: object", "discriminator: kind"}
	ok := false
	str := false
	switch {
	case p == len(types): // no such property
		decl = append(decl, "properties:", "  other: string")
	case p == len(types)+1: // no property at all
	default:
		str = types[p].t == "string"
		ok = types[p].scalar
		decl = append(decl, "properties:", "  a: integer", "  kind:", "    type: "+types[p].t)
		if types[p].t == "integer" {
			decl = append(decl, "    minimum: "+vPlace(lo))
		}
	}
	switch val {
	case 1:
		decl = append(decl, "discriminatorValue: word")
		ok = ok && str
	case 2:
		decl = append(decl, "discriminatorValue: true")
		ok = ok && types[p].t == "boolean"
	case 3:
		decl = append(decl, "discriminatorValue: "+vPlace(x))
		if ok && p < len(types) {
			switch types[p].t {
			case "integer":
				ok = x >= lo
			case "number":
			default:
				ok = false
			}
		}
	}
	place := []int{0, 2, 4, 7}[ndChoice(4, "place")]
	vAssert(c08Valid(vDecl(decl, place)) == ok, "a library is rejected exactly when a discriminator is not a scalar property or its value does not suit it")
}

func VH_C08_pattern_closed() {
	ap := ndChoice(3, "additionalProperties")
	decl := []string{"type: object"}
	if ap > 0 {
		decl = append(decl, "additionalProperties: "+[]string{"", "true", "false"}[ap])
	}
	pat := ndChoice(3, "properties")
	if pat > 0 {
		decl = append(decl, "properties:", "  a: string")
	}
	if pat > 1 {
		decl = append(decl, "  /^x/: string")
	}
	vAssert(c08Valid(vDecl(decl, ndChoice(vPlaces, "place"))) == !(ap == 2 && pat == 2), "a library is rejected exactly when a closed object has pattern properties")
}

// VH_C08_inherited: contradictions between what a child declares and what it inherits.
func VH_C08_inherited() {
	kinds := []struct{ kind, lo, hi string }{
		{"integer", "minimum", "maximum"}, {"string", "minLength", "maxLength"}, {"array", "minItems", "maxItems"},
		{"object", "minProperties", "maxProperties"}, {"file", "minLength", "maxLength"},
	}
	k := kinds[ndChoice(len(kinds), "kind")]
	var lo, hi string
	var ok bool
	if k.kind == "integer" {
		a, b := ndInt("lo"), ndInt("hi")
		lo, hi, ok = vPlace(a), vPlace(b), a <= b
	} else {
		a, b := ndUint("lo"), ndUint("hi")
		lo, hi, ok = vPlace(a), vPlace(b), a <= b
	}
	P := k.lo + ": " + lo
	C := k.hi + ": " + hi
	if ndBool("maximum in the parent") {
		P, C = C, P
	}
	var doc string
	switch ndChoice(7, "derivation") {
	case 0:
		doc = "types:\n  P:\n    type: " + k.kind + "\n    " + P + "\n  C:\n    type: P\n    " + C + "\n"
	case 1:
		doc = "types:\n  C:\n    type: M\n    " + C + "\n  M: P\n  P:\n    type: " + k.kind + "\n    " + P + "\n"
	case 2:
		doc = "types:\n  O:\n    properties:\n      x:\n        type: " + k.kind + "\n        " + P + "\n  Q:\n    type: O\n    properties:\n      x:\n        type: " + k.kind + "\n        " + C + "\n"
	case 3:
		doc = "types:\n  O:\n    items:\n      type: " + k.kind + "\n      " + P + "\n  Q:\n    type: O\n    items:\n      type: " + k.kind + "\n      " + C + "\n"
	case 4:
		doc = "types:\n  A:\n    type: " + k.kind + "\n    " + P + "\n  B:\n    type: " + k.kind + "\n    " + C + "\n  T: [A, B]\n"
	case 5:
		vFile("d.raml", "#%RAML 1.0 DataType\ntype: "+k.kind+"\n"+P+"\n")
		doc = "types:\n  O:\n    properties:\n      a?:\n        type: !include d.raml\n        " + C + "\n"
	case 6:
		vFile("l.raml", "#%RAML 1.0 Library\ntypes:\n  P:\n    type: "+k.kind+"\n    "+P+"\n")
		doc = "uses:\n  l: l.raml\ntypes:\n  G:\n    type: l.P\n    description: g\n  C:\n    type: G\n    " + C + "\n"
	}
	vAssert(c08Valid(doc) == ok, "a library is rejected exactly when an inherited minimum exceeds a maximum")
}

func VH_C08_format() {
	ints, nums := "int8 int16 int32 int64 int long", "float double"
	all := []string{"int8", "int16", "int32", "int64", "int", "long", "float", "double", "rfc3339", "rfc2616", "other", "\"\""}
	f := all[ndChoice(len(all), "format")]
	kind := []string{"integer", "number", "datetime"}[ndChoice(3, "kind")]
	in := func(l string) bool { return strings.Contains(" "+l+" ", " "+f+" ") }
	ok := false
	switch kind {
	case "integer":
		ok = in(ints)
	case "number":
		ok = in(nums)
	case "datetime":
		ok = in("rfc3339 rfc2616")
	}
	vAssert(c08Valid(vDecl([]string{"type: " + kind, "format: " + f}, ndChoice(vPlaces, "place"))) == ok, "a library is rejected exactly when a format is not one of the kind")
}

// VH_C08_check: Check on an unwrapped type tells what validation tells about the library.
func VH_C08_check() {
	lo, hi := ndInt("lo"), ndInt("hi")
	l, h := ndUint("l"), ndUint("h")
	decl := [][]string{
		{"type: object", "properties:", "  a:", "    type: integer", "    minimum: " + vPlace(lo), "    maximum: " + vPlace(hi), "  b:", "    type: array", "    items:", "      type: string", "      minLength: " + vPlace(l), "      maxLength: " + vPlace(h)},
		{"type: array", "minItems: " + vPlace(l), "maxItems: " + vPlace(h), "items:", "  type: object", "  properties:", "    /^x/:", "      type: integer", "      minimum: " + vPlace(lo), "      maximum: " + vPlace(hi)},
		{"type: object", "minProperties: " + vPlace(l), "maxProperties: " + vPlace(h), "properties:", "  u: I | string"},
	}[ndChoice(3, "type")]
	doc := vDecl(decl, 0) + "  I:\n    type: integer\n    minimum: " + vPlace(lo) + "\n    maximum: " + vPlace(hi) + "\n"
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "unwrapping does not check facets")
	vAssert((b.Check() == nil) == vAnd(lo <= hi, l <= h), "Check rejects exactly types with a contradiction at any level")
}

// VH_C08_recursive: types derived from the recursive type that contains them.
func VH_C08_recursive() {
	l, h := ndUint("l"), ndUint("h")
	c := "minProperties: " + vPlace(l) + "\n          maxProperties: " + vPlace(h) + "\n"
	var doc string
	switch ndChoice(6, "where") {
	case 0:
		doc = "types:\n  N:\n    properties:\n      v: integer\n      next?:\n          type: N\n          " + c
	case 1:
		doc = "types:\n  N:\n    properties:\n      v: integer\n      /^n/:\n          type: N\n          " + c
	case 2:
		doc = "types:\n  N:\n    properties:\n      v: integer\n      kids?:\n        items:\n          type: N\n          " + c
	case 3:
		doc = "types:\n  N:\n    properties:\n      v: integer\n      kids?:\n          type: N[]\n          " + strings.ReplaceAll(c, "Properties", "Items")
	case 4:
		doc = "types:\n  N:\n    properties:\n      m?: M\n  M:\n    properties:\n      n?:\n          type: N\n          " + c
	case 5:
		doc = "types:\n  Z: N\n  N:\n    properties:\n      u?: N | nil\n      p?:\n        properties:\n          q?:\n            type: N\n            description: d\n      w?:\n          type: N\n          " + c
	}
	vAssert(c08Valid(doc) == (l <= h), "a library is rejected exactly when a type inside a recursive type contradicts itself")
}

// VH_C08_discriminator_split: discriminator, value and property on different levels, beside other properties.
func VH_C08_discriminator_split() {
	prop := []string{"", "k: string", "k?: string", "k?: S", "/k/: string", "/^k$/: string\n@other: string", "other: string", "/k/: string\n@k: string", "k: string | nil", "k: string[]", "\"k?\": {type: string, required: true}", "k: datetime", "k: file"}
	scalar := []bool{false, true, true, true, false, false, false, true, false, false, false, true, true}
	i := ndChoice(len(prop), "property")
	at := []int{ndChoice(3, "property at"), ndChoice(3, "discriminator at"), ndChoice(4, "value at")}
	text := []string{"discriminator: k", "discriminatorValue: word"}
	vAssume(i < 11 || at[2] == 3) // no value
	lines := [3]string{}
	for l := 0; l < 3; l++ {
		if at[1] == l {
			lines[l] += "    " + text[0] + "\n"
		}
		if at[2] == l {
			lines[l] += "    " + text[1] + "\n"
		}
		if at[0] == l && prop[i] != "" {
			lines[l] += "    properties:\n      " + strings.ReplaceAll(prop[i], "@", "      ") + "\n"
		}
	}
	// P <- C <- D
	doc := "types:\n  S:\n    type: string\n  D:\n    type: C\n" + lines[2] + "  C:\n    type: P\n" + lines[1] + "  P:\n    type: object\n" + lines[0]
	// every level from the discriminator on must have the property
	ok := scalar[i] && at[0] <= at[1]
	vAssert(c08Valid(doc) == ok, "a library is rejected exactly when a discriminator is not a scalar property or its value does not suit it")
}
