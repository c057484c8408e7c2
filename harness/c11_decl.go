package raml

//use: common.go place.go
//bound: every order reached by moving one facet of a declaration of 12 kinds to any position, in document order or reversed; every set of up to three facets of 16 in every order without a type; property keys of up to three arbitrary characters of an alphabet and 20 fixed ones, with and without `required`; 24 facets times 30 kinds of YAML value with symbolic numbers; 18 places of declaration; every two of 30 facets, fitting or not, under 15 types; every order of up to four names and of the sections of a file
//assume: `1.0` and `1e2` as counts, null facet values, and quoted YAML 1.1 booleans are left open

import (
	"sort"
	"strings"
)

var _ = vReg("VH_C11_order", VH_C11_order)
var _ = vReg("VH_C11_order_places", VH_C11_order_places)
var _ = vReg("VH_C11_implied", VH_C11_implied)
var _ = vReg("VH_C11_property_keys", VH_C11_property_keys)
var _ = vReg("VH_C11_symbolic_keys", VH_C11_symbolic_keys)
var _ = vReg("VH_C11_facet_keys", VH_C11_facet_keys)
var _ = vReg("VH_C11_values", VH_C11_values)
var _ = vReg("VH_C11_numbers", VH_C11_numbers)
var _ = vReg("VH_C11_bases", VH_C11_bases)
var _ = vReg("VH_C11_sequence", VH_C11_sequence)
var _ = vReg("VH_C11_pairs", VH_C11_pairs)
var _ = vReg("VH_C11_sections", VH_C11_sections)

// c11Facet is a facet of a declaration (lines) and how it is found in the result.
type c11Facet struct {
	name string
	text []string
	want any
	get  func(b *BaseShape) any
}

func c11F(name string, text string, want any) c11Facet {
	return c11Facet{name, []string{name + ": " + text}, want, func(b *BaseShape) any { return vFacet(b, name) }}
}

func c11Str(p *string) any {
	if p == nil {
		return nil
	}
	return *p
}

func c11Val(v any) any {
	switch x := v.(type) {
	case int:
		return int64(x)
	case []any, map[string]any:
		return vTxt(x)
	}
	return v
}

// c11Common: facets that every kind has.
func c11Common(good string, want any) []c11Facet {
	n, f := ndInt("annotation"), ndInt("facet")
	return []c11Facet{
		{"displayName", []string{"displayName: mark"}, "mark", func(b *BaseShape) any { return c11Str(b.DisplayName) }},
		{"description", []string{"description: some text"}, "some text", func(b *BaseShape) any { return c11Str(b.Description) }},
		{"default", []string{"default: " + good}, want, func(b *BaseShape) any {
			if b.Default == nil {
				return "none"
			}
			return c11Val(b.Default.Value)
		}},
		{"example", []string{"example:", "  value: " + good, "  displayName: shown"}, want, func(b *BaseShape) any {
			if b.Example == nil || b.Examples != nil || b.Example.DisplayName != "shown" {
				return "none"
			}
			return c11Val(b.Example.Data.Value)
		}},
		{"(an)", []string{"(an): " + vPlace(n)}, n, func(b *BaseShape) any {
			e, ok := b.CustomDomainProperties.Get("an")
			if !ok {
				return nil
			}
			return c11Val(e.Extension.Value)
		}},
		{"facets", []string{"facets:", "  g?: integer", "  \"h\": {type: string, required: false}"}, "g integer false h string false ", func(b *BaseShape) any {
			s := ""
			for p := b.CustomShapeFacetDefinitions.Oldest(); p != nil; p = p.Next() {
				s += p.Key + " " + p.Value.Base.Type + " "
				if p.Value.Required {
					s += "true "
				} else {
					s += "false "
				}
			}
			return s
		}},
		{"custom", []string{"custom: " + vPlace(f)}, f, func(b *BaseShape) any {
			e, ok := b.CustomShapeFacets.Get("custom")
			if !ok {
				return nil
			}
			return c11Val(e.Value)
		}},
	}
}

const c11Kinds = 13

// c11Kind is a declaration of the given kind with all of its facets; the first one is the type.
func c11Kind(k int) (string, []c11Facet) {
	typ := func(s, want string) c11Facet {
		return c11Facet{"type", []string{"type: " + s}, want, func(b *BaseShape) any { return b.Type }}
	}
	switch k {
	case 0:
		a, b := ndInt("min"), ndInt("max")
		return "integer", append([]c11Facet{typ("integer", "integer"), c11F("minimum", vPlace(a), a), c11F("maximum", vPlace(b), b), c11F("multipleOf", "3", 3.0), c11F("format", "int8", "int8"), c11F("enum", "[1, 5, 3]", "1,5,3")}, c11Common("5", int64(5))...)
	case 1:
		return "number", append([]c11Facet{typ("number", "number"), c11F("minimum", "-1.5", -1.5), c11F("maximum", "1e3", 1e3), c11F("multipleOf", "0.5", 0.5), c11F("format", "float", "float"), c11F("enum", "[3, 4]", "3,4")}, c11Common("3", int64(3))...)
	case 2:
		a, b := ndUint("min"), ndUint("max")
		return "string", append([]c11Facet{typ("string", "string"), c11F("minLength", vPlace(a), a), c11F("maxLength", vPlace(b), b), c11F("pattern", "^a+$", "^a+$"), c11F("enum", "[ab, aa]", "ab,aa")}, c11Common("aa", "aa")...)
	case 3:
		a, b := ndUint("min"), ndUint("max")
		return "file", append([]c11Facet{typ("file", "file"), c11F("minLength", vPlace(a), a), c11F("maxLength", vPlace(b), b), c11F("fileTypes", "[a/b, '*/*']", "a/b,*/*")}, c11Common("aa", "aa")...)
	case 4:
		return "boolean", append([]c11Facet{typ("boolean", "boolean"), c11F("enum", "[true]", "true")}, c11Common("true", true)...)
	case 5:
		return "datetime", append([]c11Facet{typ("datetime", "datetime"), c11F("format", "rfc2616", "rfc2616")}, c11Common("Mon, 03 Feb 2020 10:11:12 GMT", "Mon, 03 Feb 2020 10:11:12 GMT")...)
	case 6:
		a, b := ndUint("min"), ndUint("max")
		items := c11Facet{"items", []string{"items:", "  type: string", "  minLength: 1"}, "string", func(b *BaseShape) any { return vFacet(b, "items") }}
		return "array", append([]c11Facet{typ("array", "array"), c11F("minItems", vPlace(a), a), c11F("maxItems", vPlace(b), b), c11F("uniqueItems", "true", true), items}, c11Common("[a]", "['a',]")...)
	case 7:
		a, b := ndUint("min"), ndUint("max")
		props := c11Facet{"properties", []string{"properties:", "  a?: string", "  b: integer[]", "  c: {type: number, required: false}"}, "a?:string,b:array,c?:number", func(b *BaseShape) any { return vFacet(b, "properties") }}
		dv := c11Facet{"discriminatorValue", []string{"discriminatorValue: v"}, "v", func(b *BaseShape) any {
			if o, ok := b.Shape.(*ObjectShape); ok {
				return o.DiscriminatorValue
			}
			return nil
		}}
		return "object", append([]c11Facet{typ("object", "object"), c11F("minProperties", vPlace(a), a), c11F("maxProperties", vPlace(b), b), c11F("additionalProperties", "false", false), c11F("discriminator", "a", "a"), dv, props}, c11Common("{a: x}", "{a:'x',}")...)
	case 8:
		props := c11Facet{"properties", []string{"properties:", "  a?: string", "  /^b/: integer"}, "a?:string,/^b/:integer", func(b *BaseShape) any { return vFacet(b, "properties") }}
		return "object", append([]c11Facet{typ("object", "object"), props}, c11Common("{a: x}", "{a:'x',}")...)
	case 9:
		any := c11Facet{"members", nil, "string|integer|", func(b *BaseShape) any {
			s := ""
			if u, ok := b.Shape.(*UnionShape); ok {
				for _, m := range u.AnyOf {
					s += m.Type + "|"
				}
			}
			return s
		}}
		return "union", append([]c11Facet{typ("string | integer", "union"), any}, c11Common("5", int64(5))...)
	case 10:
		return "nil", append([]c11Facet{typ("nil", "nil")}, c11Common("null", nil)...)
	case 11:
		return "any", append([]c11Facet{typ("any", "any")}, c11Common("[1]", "[1,]")...)
	}
	return "date-only", append([]c11Facet{typ("date-only", "date-only")}, c11Common("2020-02-03", "2020-02-03")...)
}

// c11Arrange puts the facets in some order: one of them is moved, the others keep their (or the reverse) order.
func c11Arrange(fs []c11Facet) []string {
	var l []c11Facet
	if ndBool("reversed") {
		for i := len(fs) - 1; i >= 0; i-- {
			l = append(l, fs[i])
		}
	} else {
		l = append(l, fs...)
	}
	from, to := ndChoice(len(l), "moved"), ndChoice(len(l), "to")
	f := l[from]
	l = append(l[:from:from], l[from+1:]...)
	var out []string
	for i := 0; i <= len(l); i++ {
		if i == to {
			out = append(out, f.text...)
		}
		if i < len(l) {
			out = append(out, l[i].text...)
		}
	}
	return out
}

// c11Marked finds the shapes declared with displayName mark.
func c11Marked(r *RAML) []*BaseShape {
	var l []*BaseShape
	for _, s := range r.GetShapes() {
		b := s.Base()
		if b.DisplayName != nil && *b.DisplayName == "mark" {
			l = append(l, b)
		}
	}
	return l
}

func c11Check(r *RAML, fs []c11Facet) {
	l := c11Marked(r)
	vAssert(len(l) >= 1, "a declaration makes a type")
	for _, b := range l {
		for _, f := range fs {
			vAssert(f.get(b) == f.want, f.name+": a facet is read wherever it stands in the declaration")
		}
	}
}

const c11An = "annotationTypes:\n  an: integer\n"

// VH_C11_order: the order of the facets of a declaration has no meaning.
func VH_C11_order() {
	_, fs := c11Kind(ndChoice(c11Kinds, "kind"))
	decl := c11Arrange(fs)
	var opts []ParseOpt
	if ndBool("unwrap") {
		opts = append(opts, OptWithUnwrap())
	}
	doc := "types:\n  T:\n"
	for _, l := range decl {
		doc += "    " + l + "\n"
	}
	r, err := vLib(doc+c11An, opts...)
	vAssert(err == nil, "a declaration is accepted in every order of its facets")
	if err == nil {
		c11Check(r, fs)
	}
}

// VH_C11_order_places: a declaration reads the same wherever it stands.
func VH_C11_order_places() {
	_, fs := c11Kind(ndChoice(c11Kinds, "kind"))
	var decl []string
	if ndBool("reversed") {
		for i := len(fs) - 1; i >= 0; i-- {
			decl = append(decl, fs[i].text...)
		}
	} else {
		for _, f := range fs {
			decl = append(decl, f.text...)
		}
	}
	place := ndChoice(vPlaces, "place")
	// the annotation type must be in scope
	for i, l := range decl {
		if strings.HasPrefix(l, "(an)") && (place == 7 || place == 8 || place == 9 || place == 13 || place == 16 || place == 17) {
			decl = append(decl[:i:i], decl[i+1:]...)
			break
		}
	}
	doc := vDecl(decl, place)
	if place == 1 {
		doc = strings.Replace(doc, "annotationTypes:\n", c11An, 1)
	} else {
		doc += c11An
	}
	r, err := ParseFromString("#%RAML 1.0 Library\n"+doc, "lib.raml", vDir())
	vAssert(err == nil, "a declaration is accepted wherever it stands")
	if err != nil {
		return
	}
	var want []c11Facet
	for _, f := range fs {
		if f.name == "(an)" && (place == 7 || place == 8 || place == 9 || place == 13 || place == 16 || place == 17) {
			continue
		}
		want = append(want, f)
	}
	c11Check(r, want)
}

var c11Implying = []struct {
	text  string
	kinds string // the kinds that have the facet, in order of preference
}{
	{"minLength: 1", "string file"}, {"maxLength: 9", "string file"}, {"pattern: ^a", "string"},
	{"minimum: 1", "number"}, {"maximum: 9", "number"}, {"multipleOf: 1", "number"},
	{"minItems: 1", "array"}, {"maxItems: 9", "array"}, {"uniqueItems: true", "array"}, {"items: string", "array"},
	{"minProperties: 1", "object"}, {"maxProperties: 9", "object"}, {"additionalProperties: true", "object"}, {"properties: {a: string}", "object"}, {"discriminator: a", "object"},
	{"fileTypes: [a/b]", "file"},
	{"description: d", "string file number array object"}, {"custom: 1", "string file number array object"},
}

// VH_C11_implied: without a type the facets tell the kind, in any order.
func VH_C11_implied() {
	n := ndChoice(4, "facets")
	var lines []string
	if ndBool("empty type") {
		lines = append(lines, "type: \"\"")
	}
	kinds := []string{"string", "file", "number", "array", "object"}
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		k := ndChoice(len(c11Implying), "facet")
		vAssume(!used[k])
		used[k] = true
		f := c11Implying[k]
		lines = append(lines, f.text)
		var left []string
		for _, x := range kinds {
			if strings.Contains(f.kinds, x) {
				left = append(left, x)
			}
		}
		kinds = left
	}
	if len(lines) == 0 {
		lines = []string{"displayName: d"}
	}
	r, err := vLib(vDecl(lines, 2))
	vAssert((err == nil) == (len(kinds) > 0), "facets without a type are accepted exactly when some kind has all of them")
	if err != nil || len(kinds) == 0 {
		return
	}
	p, _ := vGet(r, "O").Shape.(*ObjectShape).Properties.Get("b")
	vAssert(p.Base.Type == kinds[0], "facets tell the kind of a type that has none")
}

// c11Key is the meaning of a property key.
func c11Key(key string, explicit int) (name string, required, pattern, bad bool) {
	name = key
	opt := len(key) > 0 && key[len(key)-1] == '?'
	if opt {
		name = key[:len(key)-1]
	}
	if len(name) > 1 && name[0] == '/' && name[len(name)-1] == '/' {
		return name, false, true, opt || explicit > 0
	}
	if explicit > 0 {
		return key, explicit == 1, false, false
	}
	return name, !opt, false, false
}

func c11CheckKey(key, quoted string, explicit int) {
	decl := "integer"
	switch explicit {
	case 1:
		decl = "{type: integer, required: true}"
	case 2:
		decl = "{required: false, type: integer}"
	}
	doc := "types:\n  O:\n    properties:\n      zz: any\n      " + quoted + ": " + decl + "\n"
	if ndBool("in flow style") {
		doc = "types:\n  O: {properties: {zz: any, " + quoted + ": " + decl + "}, type: object}\n"
	}
	r, err := vLib(doc)
	name, required, pattern, bad := c11Key(key, explicit)
	vAssert((err == nil) == !bad, "a property is an error exactly when it is a pattern property with a requirement")
	if err != nil || bad {
		return
	}
	o := vGet(r, "O").Shape.(*ObjectShape)
	if pattern {
		vAssert(o.Properties.Len() == 1 && o.PatternProperties.Len() == 1, "a key between slashes is a pattern property")
		p := o.PatternProperties.Oldest()
		vAssert(p.Key == name && p.Value.Base.Type == "integer", "a pattern property has its pattern")
		vAssert(p.Value.Pattern.String() == name[1:len(name)-1], "a pattern property has its pattern")
		return
	}
	vAssert(o.Properties.Len() == 2 && o.PatternProperties.Len() == 0, "a key is one property")
	p := o.Properties.Newest()
	vAssert(p.Key == name && p.Value.Name == name, "a property has the name of its key")
	vAssert(p.Value.Required == required, "a property is required unless its key ends in ? or it says otherwise")
	vAssert(p.Value.Base.Type == "integer", "a property has its type")
	// and as an instance
	vAssert(r.UnwrapShapes() == nil, "the library unwraps")
	b := vGet(r, "O")
	v := map[string]any{"zz": true}
	vAssert(vOK(b, v) == !required, "a required property must be there")
	v[name] = int64(1)
	vAssert(vOK(b, v), "a property is found by its name")
	v[name] = "x"
	vAssert(!vOK(b, v), "a property is found by its name")
}

var c11Keys = []string{"a", "a?", "a??", "?", "??", "/a/", "/a/?", "//", "/", "/?", "/a", "a/", "a/b", "/a?/", "1", "true", "null", "a b", "a b?", "a.b", "/^a|b$/", "type", "required?", "/a/b/", "?a", "é", "é?", "(a)", "properties"}

// VH_C11_property_keys: what a property key means.
func VH_C11_property_keys() {
	k := c11Keys[ndChoice(len(c11Keys), "key")]
	q := "\"" + k + "\""
	if ndBool("single quotes") {
		q = "'" + k + "'"
	}
	c11CheckKey(k, q, ndChoice(3, "required"))
}

// VH_C11_symbolic_keys: keys of any characters out of those that have a meaning.
func VH_C11_symbolic_keys() {
	n := 2
	if vThorough {
		n = 4
	}
	alpha := "a/?b"
	k := ""
	for i := ndChoice(n, "length"); i >= 0; i-- {
		k += string(alpha[ndChoice(len(alpha), "character")])
	}
	vAssume(k != "zz")
	name, _, pattern, _ := c11Key(k, 0)
	if pattern && len(name) > 2 {
		vAssume(name[1] != '?') // not a regular expression
		vAssume(!strings.Contains(name, "???"))
	}
	c11CheckKey(k, "\""+k+"\"", ndChoice(3, "required"))
}

// VH_C11_facet_keys: custom facets are required unless their key says otherwise.
func VH_C11_facet_keys() {
	key := []string{"f", "f?", "f??", "f g", "1"}[ndChoice(5, "key")]
	explicit := ndChoice(3, "required")
	decl := []string{"integer", "{type: integer, required: true}", "{required: false, type: integer}"}[explicit]
	name, required, _, _ := c11Key(key, explicit)
	given := ndBool("given")
	x := ndInt("x")
	doc := "types:\n  D:\n    type: string\n    facets:\n      \"" + key + "\": " + decl + "\n  C:\n    type: D\n    description: c\n"
	if given {
		doc += "    \"" + name + "\": " + vPlace(x) + "\n"
	}
	r, err := vLib(doc)
	vAssert(err == nil, "the library parses")
	p := vGet(r, "D").CustomShapeFacetDefinitions.Oldest()
	vAssert(p.Key == name && p.Value.Name == name && p.Value.Required == required, "a custom facet has the name and requirement of its key")
	vAssert((r.ValidateShapes() == nil) == (given || !required), "a required custom facet must be given")
	if given {
		f, ok := vGet(r, "C").CustomShapeFacets.Get(name)
		vAssert(ok && c11Val(f.Value) == any(x), "a custom facet has the value that is given")
	}
}

// c11Value is a YAML value and what it is.
type c11Value struct {
	text string
	is   string
}

func c11Vals() []c11Value {
	return []c11Value{
		{"3", "count int num"}, {"0", "count int num"}, {"-3", "int num"}, {"1.5", "num"}, {"-0.5", "num"}, {"0.5", "num"}, {"1e-3", "num"}, {"1.5e1", "num?"}, {"18446744073709551616", "num"}, {"36893488147419103232", "num"}, {"1e30", "num"}, {"-1e30", "num"},
		{"-1.0", "num"}, {"-18446744073709551616", "num"},
		{"abc", "text re"}, {"a(b", "text"}, {"'3'", "text re"}, {"'1.5'", "text re"}, {"'true'", "text re"}, {"\"\"", "text re empty"}, {"2020-01-01", "stamp"},
		{"true", "bool"}, {"false", "bool"}, {"[]", "list strs nums bools"}, {"[1]", "list nums"}, {"[a]", "list strs"}, {"[true]", "list bools"}, {"[[a]]", "list"}, {"[{a: b}]", "list"},
		{"{}", "map"}, {"{a: string}", "map props"}, {"{a: 5}", "map"}, {"{a: [5]}", "map"}, {"!include no.txt", "include"},
	}
}

// VH_C11_values: a facet value of another kind is an error.
func VH_C11_values() {
	// facet: kind of type, name, what its value must be
	fs := [][3]string{
		{"string", "minLength", "count"}, {"string", "maxLength", "count"}, {"file", "minLength", "count"}, {"file", "maxLength", "count"}, {"array", "minItems", "count"}, {"array", "maxItems", "count"}, {"object", "minProperties", "count"}, {"object", "maxProperties", "count"},
		{"integer", "minimum", "int"}, {"integer", "maximum", "int"}, {"number", "minimum", "num"}, {"number", "maximum", "num"}, {"number", "multipleOf", "num"}, {"integer", "multipleOf", "num"},
		{"array", "uniqueItems", "bool"}, {"object", "additionalProperties", "bool"}, {"string", "required", "bool"},
		{"string", "pattern", "re"}, {"string", "enum", "list"}, {"integer", "enum", "list"}, {"boolean", "enum", "list"}, {"number", "enum", "list"}, {"file", "fileTypes", "strs"},
		{"object", "facets", "props"}, {"object", "properties", "props"}, {"string", "examples", "map"}, {"integer", "format", "none"}, {"datetime", "format", "none"}, {"number", "format", "none"}, {"array", "items", "none"},
		{"string", "displayName", "scalar"}, {"number", "description", "scalar"}, {"object", "discriminator", "scalar"},
	}
	f := fs[ndChoice(len(fs), "facet")]
	vs := c11Vals()
	v := vs[ndChoice(len(vs), "value")]
	if f[2] == "int" {
		vAssume(v.text != "18446744073709551616" && v.text != "36893488147419103232" && v.text != "-18446744073709551616")
	}
	has := func(k string) bool { return strings.Contains(" "+v.is+" ", " "+k+" ") }
	var ok bool
	switch f[2] {
	case "scalar":
		ok = !has("list") && !has("map")
	case "props":
		ok = has("props") || v.text == "{}"
	case "none":
		ok = f[1] == "items" && (v.text == "{}" || v.text == "\"\"")
	case "map":
		ok = has("map")
	default:
		ok = has(f[2])
		if f[2] == "count" && (v.text == "1.5e1") {
			ok = true
		}
		if f[2] == "num" && v.is == "num?" {
			ok = true
		}
	}
	if f[1] == "items" && v.text == "{a: string}" || f[1] == "items" && strings.HasPrefix(v.text, "{a: ") {
		ok = true // an unknown facet, for validation to find
	}
	if f[1] == "pattern" && v.text == "a(b" {
		ok = false
	}
	if f[2] == "scalar" {
		vAssume(v.is != "include")
	}
	decl := []string{"type: " + f[0], f[1] + ": " + v.text}
	if ndBool("first") {
		decl[0], decl[1] = decl[1], decl[0]
	}
	place := 2
	if vThorough {
		place = ndChoice(vPlaces, "place")
	} else {
		place = []int{0, 2, 4, 7, 10}[ndChoice(5, "place")]
	}
	vAssume(place != 3 && place != 12 && place != 16 || f[1] != "required")
	_, err := ParseFromString("#%RAML 1.0 Library\n"+vDecl(decl, place), "lib.raml", vDir())
	vAssert((err == nil) == ok, "a facet value is accepted exactly when it is of the kind of the facet")
}

// VH_C11_numbers: numeric facet values are read exactly.
func VH_C11_numbers() {
	n := ndInt("n")
	fs := [][2]string{{"string", "minLength"}, {"string", "maxLength"}, {"file", "minLength"}, {"file", "maxLength"}, {"array", "minItems"}, {"array", "maxItems"}, {"object", "minProperties"}, {"object", "maxProperties"}, {"integer", "minimum"}, {"integer", "maximum"}}
	f := fs[ndChoice(len(fs), "facet")]
	r, err := vLib(vDecl([]string{f[1] + ": " + vPlace(n), "type: " + f[0], "displayName: mark"}, []int{0, 2, 4, 1, 10}[ndChoice(5, "place")]))
	count := f[0] != "integer"
	vAssert((err == nil) == vOr(!count, n >= 0), "a negative count is an error")
	if err != nil {
		return
	}
	got := vFacet(c11Marked(r)[0], f[1])
	if count {
		vAssert(got == any(uint64(n)), "a count is read exactly")
	} else {
		vAssert(got == any(n), "a bound is read exactly")
	}
}

// VH_C11_bases: every spelling YAML has for a number.
func VH_C11_bases() {
	l := []struct {
		text string
		n    int64
	}{{"0x10", 16}, {"0o17", 15}, {"0b101", 5}, {"+7", 7}, {"-0x10", -16}, {"1_000", 1000}, {"0xFF", 255}, {"-7", -7}, {"010", 8}, {"9223372036854775807", 9223372036854775807}, {"-9223372036854775808", -9223372036854775808}, {"00", 0}, {"-0", 0}}
	k := l[ndChoice(len(l), "spelling")]
	facet := []string{"minimum", "maximum"}[ndChoice(2, "facet")]
	b, err := vUnwrapped("types:\n  T: {type: integer, "+facet+": "+k.text+", default: "+k.text+"}\n", "T")
	vAssert(err == nil, "every spelling of an integer is a bound")
	if err != nil {
		return
	}
	vAssert(vFacet(b, facet) == any(k.n), "a bound is the number that is written")
	vAssert(c11Val(b.Default.Value) == any(k.n), "a default is the number that is written")
	x := ndInt("x")
	if facet == "minimum" {
		vAssert(vOK(b, x) == (x >= k.n), "a bound is the number that is written")
	} else {
		vAssert(vOK(b, x) == (x <= k.n), "a bound is the number that is written")
	}
	if k.n >= 0 {
		c, err := vUnwrapped("types:\n  T: {type: string, minLength: "+k.text+"}\n", "T")
		vAssert(err == nil && vFacet(c, "minLength") == any(uint64(k.n)), "a count is the number that is written")
	}
}

// c11Perm is some order of the names.
func c11Perm(names []string) []string {
	l := append([]string{}, names...)
	for i := 0; i < len(l)-1; i++ {
		j := i + ndChoice(len(l)-i, "order")
		l[i], l[j] = l[j], l[i]
	}
	return l
}

// VH_C11_sequence: what is declared in some order stays in that order.
func VH_C11_sequence() {
	names := c11Perm([]string{"m", "b", "z", "a"})
	each := func(f string) string {
		s := ""
		for _, n := range names {
			s += strings.ReplaceAll(f, "%", n)
		}
		return s
	}
	list := each("%, ")
	list = "[" + list[:len(list)-2] + "]"
	doc := "types:\n  O:\n    properties:\n" + each("      %?: string\n") + each("      /^%/: string\n") +
		"    facets:\n" + each("      %?: integer\n") + "    examples:\n" + each("      %: {%: x}\n") +
		"  S: {type: string, enum: " + list + "}\n  F: {type: file, fileTypes: " + list + "}\n  U: m | b | z | a\n  I: {type: " + list + "}\n" + each("  %: string\n") +
		"annotationTypes:\n" + each("  %: integer\n") + each("(%): 1\n")
	var opts []ParseOpt
	if ndBool("unwrap") {
		opts = append(opts, OptWithUnwrap(), OptWithValidate())
	}
	r, err := vLib(doc, opts...)
	vAssert(err == nil, "the library is well formed")
	if err != nil {
		return
	}
	want := strings.Join(names, " ")
	var l []string
	same := func(what string) {
		vAssert(strings.Join(l, " ") == want, "the order of declarations is kept: "+what)
		l = nil
	}
	o := vGet(r, "O").Shape.(*ObjectShape)
	for p := o.Properties.Oldest(); p != nil; p = p.Next() {
		l = append(l, p.Key)
	}
	same("properties")
	for p := o.PatternProperties.Oldest(); p != nil; p = p.Next() {
		l = append(l, p.Key[2:3])
	}
	same("pattern properties")
	for p := o.CustomShapeFacetDefinitions.Oldest(); p != nil; p = p.Next() {
		l = append(l, p.Key)
	}
	same("facets")
	for p := o.Examples.Map.Oldest(); p != nil; p = p.Next() {
		l = append(l, p.Key)
	}
	same("examples")
	for _, n := range vGet(r, "S").Shape.(*StringShape).Enum {
		l = append(l, n.Value.(string))
	}
	same("enum")
	for _, n := range vGet(r, "F").Shape.(*FileShape).FileTypes {
		l = append(l, n.Value.(string))
	}
	same("file types")
	lib := r.EntryPoint().(*Library)
	i := 0
	for p := lib.Types.Oldest(); p != nil; p = p.Next() {
		if i >= 5 {
			l = append(l, p.Key)
		}
		i++
	}
	same("types")
	for p := lib.AnnotationTypes.Oldest(); p != nil; p = p.Next() {
		l = append(l, p.Key)
	}
	same("annotation types")
	for p := lib.CustomDomainProperties.Oldest(); p != nil; p = p.Next() {
		l = append(l, p.Key)
	}
	same("annotations")
	if len(opts) == 0 {
		for _, b := range vGet(r, "I").Inherits {
			l = append(l, b.TypeLabel)
		}
		same("parents")
	}
}

// VH_C11_sections: the order of the sections of a file has no meaning.
func VH_C11_sections() {
	lo := ndInt("lo")
	vFile("l.raml", "#%RAML 1.0 Library\ntypes:\n  I: {type: integer, minimum: "+vPlace(lo)+"}\nannotationTypes:\n  b: integer\n")
	data := ndBool("data type")
	secs := map[string]string{"uses": "uses:\n  l: l.raml\n", "types": "types:\n  T: l.I\n  S:\n    type: string\n    (l.b): 7\n", "annotationTypes": "annotationTypes:\n  a: integer\n", "usage": "usage: how\n", "(a)": "(a): 5\n"}
	names := []string{"uses", "types", "annotationTypes", "usage", "(a)"}
	head := "#%RAML 1.0 Library\n"
	if data {
		secs = map[string]string{"uses": "uses:\n  l: l.raml\n", "usage": "usage: how\n", "properties": "properties:\n  t: l.I\n", "(a)": "(l.b): 5\n", "type": "type: object\n", "description": "description: d\n"}
		names = []string{"uses", "usage", "properties", "(a)", "description"}
		head = "#%RAML 1.0 DataType\n"
	}
	doc := head
	for _, n := range c11Perm(names) {
		doc += secs[n]
	}
	r, err := ParseFromString(doc, "f.raml", vDir(), OptWithUnwrap(), OptWithValidate())
	vAssert(err == nil, "a file is accepted in every order of its sections")
	if err != nil {
		return
	}
	x := ndInt("x")
	if data {
		d := r.EntryPoint().(*DataType)
		vAssert(d.Usage == "how", "the usage is read wherever it stands")
		vAssert(d.Uses.Len() == 1, "uses are read wherever they stand")
		vAssert(c11Str(d.Shape.Description) == any("d"), "facets are read wherever they stand")
		e, ok := d.Shape.CustomDomainProperties.Get("l.b")
		vAssert(ok && c11Val(e.Extension.Value) == any(int64(5)), "annotations are read wherever they stand")
		vAssert(vOK(d.Shape, map[string]any{"t": x}) == (x >= lo), "types are read wherever they stand")
		return
	}
	lib := r.EntryPoint().(*Library)
	vAssert(lib.Usage == "how" && lib.Uses.Len() == 1 && lib.Types.Len() == 2 && lib.AnnotationTypes.Len() == 1, "sections are read wherever they stand")
	e, ok := lib.CustomDomainProperties.Get("a")
	vAssert(ok && c11Val(e.Extension.Value) == any(int64(5)) && e.DefinedBy != nil, "annotations are read wherever they stand")
	vAssert(vOK(vGet(r, "T"), x) == (x >= lo), "types are read wherever they stand")
}

// VH_C11_pairs: any two facets, fitting or not, give the same in both orders.
func VH_C11_pairs() {
	n, m := ndInt("n"), ndUint("m")
	types := []string{"", "type: string", "type: integer", "type: array", "type: object", "type: any", "type: nil", "type: A | B", "type: A", "type: [A]", "type: A[]", "type: O", "type: [O, P]", "type: !include d.raml", "type: '{\"type\": \"string\"}'"}
	facets := []string{"minimum: " + vPlace(n), "maxLength: " + vPlace(m), "pattern: a", "items: A", "minItems: " + vPlace(m), "properties: {a: A}", "additionalProperties: false", "maxProperties: " + vPlace(m),
		"enum: [5, 6]", "fileTypes: [a]", "format: int8", "multipleOf: 2", "uniqueItems: true", "example: 5", "example: {value: 5, strict: true}", "examples: {e: 5}", "examples: {}", "examples: !include e.raml",
		"default: 5", "facets: {f: integer}", "f: " + vPlace(n), "g: " + vPlace(n), "(an): 5", "(no): 5", "discriminator: a", "required: true", "required: 5", "xml: {name: a}", "allowedTargets: []", "displayName: x"}
	vFile("e.raml", "#%RAML 1.0 NamedExample\na: 5\n")
	vFile("d.raml", "#%RAML 1.0 DataType\ntype: object\n")
	typ := types[ndChoice(len(types), "type")]
	i := ndChoice(len(facets), "first")
	j := ndChoice(len(facets), "second")
	vAssume(i < j && strings.SplitN(facets[i], ":", 2)[0] != strings.SplitN(facets[j], ":", 2)[0])
	head := "types:\n  A: {type: integer, facets: {\"g?\": integer}}\n  B: string\n  O: {properties: {a: integer}, facets: {\"g?\": integer}}\n  P: {properties: {b: integer}}\n  T:\n"
	one := func(lines ...string) (*RAML, error) {
		doc := head
		for _, l := range lines {
			if l != "" {
				doc += "    " + l + "\n"
			}
		}
		return vLib(doc+c11An, OptWithUnwrap())
	}
	a, e := one(typ, facets[i], facets[j])
	b, f := one(facets[j], facets[i], typ)
	vAssert((e == nil) == (f == nil), "two facets are accepted in both orders or in none")
	if e != nil || f != nil {
		return
	}
	// The model keeps the order in which the custom facets are written.
	for _, r := range []*RAML{a, b} {
		var names []string
		for p := vGet(r, "T").CustomShapeFacets.Oldest(); p != nil; p = p.Next() {
			names = append(names, p.Key)
		}
		sort.Strings(names)
		for _, k := range names {
			_ = vGet(r, "T").CustomShapeFacets.MoveToBack(k)
		}
	}
	vAssert(vShow(vGet(a, "T"), false) == vShow(vGet(b, "T"), false), "two facets have the same meaning in both orders")
	vAssert((a.ValidateShapes() == nil) == (b.ValidateShapes() == nil), "two facets are valid in both orders or in none")
}
