package raml

//use: common.go
//bound: every node of a library, data type, named example, type declaration, example and property in turn replaced by each of 27 YAML nodes (scalars of every tag, symbolic strings of up to 3 bytes, sequences, maps, aliases, includes of existing and missing files of every kind), facets of every kind of type; keys of up to 3 symbolic bytes; type expressions of up to 4 tokens; files that refer to each other with the wrong kind; Go values of every kind as instances; with and without unwrapping and validation
//assume: recursion without end is C13's; a package hook or a caller that passes nil shapes is not considered

import "strings"

var _ = vReg("VH_C10_library", VH_C10_library)
var _ = vReg("VH_C10_declaration", VH_C10_declaration)
var _ = vReg("VH_C10_facets", VH_C10_facets)
var _ = vReg("VH_C10_keys", VH_C10_keys)
var _ = vReg("VH_C10_strings", VH_C10_strings)
var _ = vReg("VH_C10_expressions", VH_C10_expressions)
var _ = vReg("VH_C10_parentheses", VH_C10_parentheses)
var _ = vReg("VH_C10_fragments", VH_C10_fragments)
var _ = vReg("VH_C10_wrong_kind", VH_C10_wrong_kind)
var _ = vReg("VH_C10_heads", VH_C10_heads)
var _ = vReg("VH_C10_instances", VH_C10_instances)
var _ = vReg("VH_C10_two_T", VH_C10_two_T)

var c10Nodes = []string{
	"", "null", "word", "\"\"", "5", "-1", "99999999999999999999", "1.5", "1e999", ".nan", "true", "2020-01-01",
	"[]", "[a]", "[[a], {b: c}, 5]", "[null]", "{}", "{a: b}", "{a: {b: [c]}}", "{\"\": null}", "{type: nil}", "{value: 1}",
	"*x", "!include d.raml", "!include none.raml", "!include e.raml", "!!binary aGk=", "!foo bar", "!!str 5", "{<<: *x, b: c}",
	"\"{}\"", "\"{\\\"type\\\": 7}\"", "\"{\"", "a | b[", "string[] | nil", "X.Y", "\"?\"", "[string, integer]", "!include v.json", "!include v.yaml", "!include v.txt",
}

func c10Files() {
	vFile("d.raml", "#%RAML 1.0 DataType\ntype: string\nminLength: 1\n")
	vFile("e.raml", "#%RAML 1.0 NamedExample\na: 1\nb: {value: x}\n")
	vFile("l.raml", "#%RAML 1.0 Library\ntypes:\n  X: string\n")
	vFile("v.json", "{\"a\": [1, null]}")
	vFile("v.yaml", "a: [1, x]\n")
	vFile("v.txt", "text")
}

// c10Parse parses a library in every mode and reports whether something panicked.
func c10Panics(head, doc string) bool {
	mode := ndChoice(3, "mode")
	return vCatch(func() {
		var opts []ParseOpt
		if mode > 0 {
			opts = append(opts, OptWithValidate())
		}
		if mode > 1 {
			opts = append(opts, OptWithUnwrap())
		}
		ParseFromString(head+doc, "lib.raml", vDir(), opts...)
	})
}

const c10Lib = "#%RAML 1.0 Library\n"

// VH_C10_parentheses: deeply nested groups.
func VH_C10_parentheses() {
	x := ndInt("x")
	doc := "types:\n  A: {type: integer, minimum: " + vPlace(x) + "}\n  T: \"" + strings.Repeat("(", 14) + "A" + strings.Repeat(")", 14) + "\"\n"
	vAssert(!vCatch(func() { vLib(doc) }), "no document makes the parser panic")
}

func c10Node() string { return c10Nodes[ndChoice(len(c10Nodes), "node")] }

var c10Where = []string{
	"%", "usage: %", "uses: %", "uses: {l: %}", "uses: {l: l.raml, m: %}", "types: %", "types: {T: %}", "annotationTypes: %", "annotationTypes: {A: %}",
	"(A): %", "annotationTypes: {A: any}\n(A): %", "other: %", "%: x", "types: {%: string}", "types: {A: string, T: {type: [A, %]}}",
}

func VH_C10_library() {
	c10Files()
	w := c10Where[ndChoice(len(c10Where), "where")]
	n := c10Node()
	anchor := ""
	if strings.Contains(n, "*x") && w != "%" {
		anchor = "usage: &x {a: b}\n"
		if ndBool("anchor to a string") {
			anchor = "usage: &x string\n"
		}
	}
	vAssert(!c10Panics(c10Lib, anchor+strings.Replace(w, "%", n, 1)+"\n"), "parsing a library does not panic")
}

var c10Decl = []string{
	"type: %", "type: [%]", "type: [string, %]", "type: [D, D, %]", "displayName: %", "description: %", "required: %", "default: %", "example: %", "example: {value: %}", "example: {value: 1, strict: %}",
	"example: {value: 1, displayName: %}", "example: {value: 1, description: %}", "example: {value: 1, (A): %}", "examples: %", "examples: {a: %}", "examples: {a: {value: %}}", "facets: %", "facets: {f: %}", "facets: {\"f?\": %}",
	"allowedTargets: %", "(A): %", "xml: %", "properties: %", "properties: {a: %}", "properties: {/a/: %}", "properties: {\"a?\": %}", "items: %", "items: {type: %}", "items: {items: %}", "enum: %", "enum: [%]", "custom: %", "type: F\n    f: %",
	"properties: {a: {properties: {b: %}}}", "type: object\n    discriminator: %", "properties: {a: string}\n    discriminator: a\n    discriminatorValue: %", "type: %\n    minLength: 1", "type: %\n    properties: {a: string}", "type: %\n    items: string",
	"type: %\n    facets: {f: string}", "type: (%)", "type: %?", "type: %[]", "type: % | nil",
}

func c10Doc(decl string) string {
	switch ndChoice(3, "place") {
	case 1:
		decl = "properties:\n      p:\n        " + strings.ReplaceAll(decl, "\n", "\n    ")
	case 2:
		decl = "type: D\n    items:\n        " + strings.ReplaceAll(decl, "\n", "\n    ")
	}
	return "usage: &x string\nannotationTypes:\n  A: any\ntypes:\n  D: string[]\n  F:\n    facets: {f: any}\n  T:\n    " + decl + "\n"
}

func VH_C10_declaration() {
	c10Files()
	d := c10Decl[ndChoice(len(c10Decl), "where")]
	n := c10Node()
	vAssert(!c10Panics(c10Lib, c10Doc(strings.Replace(d, "%", n, 1))), "parsing a type declaration does not panic")
}

var c10Kinds = []string{"any", "nil", "string", "integer", "number", "boolean", "object", "array", "file", "datetime", "date-only", "string | nil", "string[]", "D", "\"\"", "\"{}\"", "!include d.raml", "[D, D]", "unknown"}
var c10FacetNames = []string{"minimum", "maximum", "multipleOf", "format", "enum", "minLength", "maxLength", "pattern", "fileTypes", "items", "minItems", "maxItems", "uniqueItems", "properties", "minProperties", "maxProperties", "additionalProperties", "discriminator", "discriminatorValue", "anyOf", "schema"}

func VH_C10_facets() {
	c10Files()
	k, f := c10Kinds[ndChoice(len(c10Kinds), "kind")], c10FacetNames[ndChoice(len(c10FacetNames), "facet")]
	n := c10Node()
	mode := 0
	doc := "usage: &x string\ntypes:\n  D: string[]\n  T:\n    type: " + k + "\n    " + f + ": " + n + "\n  U: T\n  V:\n    type: T\n    description: d\n"
	if ndBool("validate") {
		mode = 1
	}
	vAssert(!vCatch(func() {
		if mode == 0 {
			ParseFromString(c10Lib+doc, "lib.raml", vDir(), OptWithUnwrap())
		} else {
			ParseFromString(c10Lib+doc, "lib.raml", vDir(), OptWithValidate())
		}
	}), "parsing a facet does not panic")
}

// VH_C10_keys: symbolic keys.
func VH_C10_keys() {
	n := 2
	if vThorough {
		n = 3
	}
	k := vPlace(ndStr(n))
	ws := []string{"types: {T: {properties: {%: string}}}", "types: {T: {properties: {%: {type: nil}, b: string}}, U: {type: T, properties: {b: string}}}", "types: {%: string}", "types: {T: {facets: {%: string}}}", "types: {T: {%: x}}", "%: x", "types: {T: {examples: {%: x}}}", "types: {T: {example: {%: x, value: y}}}", "annotationTypes: {%: nil}", "uses: {%: l.raml}", "types: {T: {default: {%: 1}}}"}
	c10Files()
	vAssert(!c10Panics(c10Lib, strings.Replace(ws[ndChoice(len(ws), "where")], "%", k, 1)+"\n"), "a key does not make the parser panic")
}

// VH_C10_strings: symbolic strings where text has a meaning.
func VH_C10_strings() {
	k := vPlace(ndStr(2))
	ws := []string{"types: {T: {default: %}}", "types: {T: {type: integer, format: %}}", "types: {T: {type: datetime, format: %, default: %}}", "types: {T: {type: date-only, default: %}}", "types: {T: {type: object, discriminator: %, properties: {a: string}}}", "annotationTypes: {A: any}\n(A): %", "types: {T: {displayName: %, example: {displayName: %, value: 1}}}", "usage: %", "types: {T: {type: string, enum: [%, %], example: %}}"}
	vAssert(!c10Panics(c10Lib, strings.ReplaceAll(ws[ndChoice(len(ws), "where")], "%", k)+"\n"), "a string does not make the parser panic")
}

var c10Tokens = []string{"string", "D", "|", "[]", "(", ")", "?", ".", " ", "l.X", "[", "]", "nil", "/", "<", "#"}

// VH_C10_expressions: sequences of tokens as a type.
func VH_C10_expressions() {
	n := 3
	if vThorough {
		n = 4
	}
	s := ""
	for i := 0; i < n; i++ {
		j := ndChoice(len(c10Tokens)+1, "token")
		if j == len(c10Tokens) {
			break
		}
		s += c10Tokens[j]
	}
	c10Files()
	doc := "uses: {l: l.raml}\ntypes:\n  D: integer\n"
	if ndBool("facets") {
		doc += "  T:\n    type: \"" + s + "\"\n    description: d\n"
	} else {
		doc += "  T: \"" + s + "\"\n"
	}
	vAssert(!vCatch(func() { ParseFromString(c10Lib+doc, "lib.raml", vDir(), OptWithUnwrap(), OptWithValidate()) }), "a type expression does not make the parser panic")
}

// VH_C10_fragments: every node of the other fragments.
func VH_C10_fragments() {
	c10Files()
	n := c10Node()
	var body, head string
	if ndBool("data type") {
		head = "#%RAML 1.0 DataType\n"
		body = []string{"%", "usage: %", "uses: %", "uses: {l: %}", "type: %", "uses: {l: l.raml}\ntype: l.%", "uses: {l: l.raml}\n(l.A): %", "properties: {a: %}", "example: %", "examples: %", "%: x", "items: %"}[ndChoice(12, "where")]
	} else {
		head = "#%RAML 1.0 NamedExample\n"
		body = []string{"%", "a: %", "a: {value: %}", "a: {value: 1, strict: %}", "a: {value: 1, displayName: %}", "a: {value: 1, (A): %}", "%: x"}[ndChoice(7, "where")]
	}
	body = strings.Replace(body, "%", n, 1) + "\n"
	if strings.Contains(n, "*x") {
		body = strings.Replace(body, "*x", "{z: &x {y: w}, v: *x}", 1)
	}
	if ndBool("included") {
		vFile("f.raml", head+body)
		inc := []string{"types: {T: !include f.raml}", "types: {T: {type: !include f.raml, description: d}}", "types: {T: {type: string, examples: !include f.raml}}", "types: {T: {default: !include f.raml}}", "uses: {f: f.raml}"}[ndChoice(5, "how")]
		head, body = c10Lib, inc+"\n"
	}
	vAssert(!c10Panics(head, body), "parsing a fragment does not panic")
}

// VH_C10_wrong_kind: a file used as two kinds of fragments.
func VH_C10_wrong_kind() {
	c10Files()
	uses := []string{"uses: {a: %}\n", "types:\n  T: !include %\n", "types:\n  T:\n    type: string\n    examples: !include %\n", "types:\n  T:\n    default: !include %\n", "types:\n  T:\n    type: D\n  D: !include %\n"}
	f := []string{"d.raml", "e.raml", "l.raml", "v.json", "v.yaml", "v.txt", "none", "lib.raml", "m.raml", "."}[ndChoice(10, "file")]
	u := strings.Replace(uses[ndChoice(len(uses), "first use")], "%", f, 1)
	w := strings.Replace(uses[ndChoice(len(uses), "second use")], "%", f, 1)
	vFile("m.raml", c10Lib+u)
	first, second := "uses: {m: m.raml}\n", w
	if strings.HasPrefix(w, "uses") {
		first, second = "", "uses: {m: m.raml, "+w[len("uses: {"):]
		if ndBool("other order") {
			second = strings.Replace("uses: {% m: m.raml}\n", "%", w[len("uses: {"):len(w)-2]+",", 1)
		}
	}
	head := c10Lib
	if ndBool("from a data type") && strings.HasPrefix(second, "types:\n  T: !include") {
		head, second = "#%RAML 1.0 DataType\n", "properties:\n  p: !include "+f+"\n"
	}
	vFile("lib.raml", head+first+second)
	vAssert(!c10Panics(head, first+second), "a file of another kind does not make the parser panic")
}

// VH_C10_heads: short and odd documents.
func VH_C10_heads() {
	docs := []string{"", "\n", "#%RAML 1.0 Library", "#%RAML 1.0 Library\n", "#%RAML 1.0 Library\r\n\r\n", "#%RAML 1.0 DataType\n", "#%RAML 1.0 NamedExample\n", "#%RAML 1.0 NamedExample\n---\n", "#%RAML 1.0 DataType\n--- \n...\n", "#%RAML 1.0 Library\n---\n---\n", "#%RAML 1.0\n", "#%RAML 1.0 Trait\n", "#%RAML 0.8\n", "types: {}\n", "#%RAML 1.0 Library\n\tx", "#%RAML 1.0 Library\n- a\n", "#%RAML 1.0 Library\n5\n", "#%RAML 1.0 DataType\n[a]\n", "#%RAML 1.0 DataType\nstring\n", "#%RAML 1.0 Library\nnull\n", "#%RAML 1.0 DataType\nnull\n", "#%RAML 1.0 NamedExample\nnull\n", "#%RAML 1.0 DataType\n{}\n", "\xff\xfe", "#%RAML 1.0 Library\n\x00", "#%RAML 1.0 Library\n{", "#%RAML 1.0 Library\n*a\n", "#%RAML 1.0 Library\n&a {b: *a}\n"}
	vAssert(!c10Panics("", docs[ndChoice(len(docs), "document")]), "an odd document does not make the parser panic")
	s := ndStr(3)
	vAssert(!vCatch(func() { ParseFromString(s, "lib.raml", vDir()) }), "a short document does not make the parser panic")
}

type c10Struct struct{ A int }

// VH_C10_instances: values of every Go kind.
func VH_C10_instances() {
	p := 5
	vals := []any{nil, 1, int8(-1), int16(1), int32(1), int64(1), uint(1), uint8(1), uint16(1), uint32(1), uint64(1), float32(1.5), 1.5, "s", []byte("x"), []string{"a"}, []int{1}, []any{1, nil, []any{}}, map[string]any{"a": nil}, map[string]string{"a": "b"}, map[any]any{1: 2}, map[string]int{"a": 1},
		c10Struct{1}, &c10Struct{1}, &p, (*int)(nil), true, complex(1, 2), []map[string]any{{"a": 1}}, []any{map[string]any{"a": []any{nil}}}, map[string]any{}, []any(nil), map[string]any(nil), [2]int{1, 2}, func() {}, map[string]any{"": map[string]any{"": nil}}}
	types := []string{"any", "nil", "string", "integer", "number", "boolean", "object", "array", "file", "datetime", "date-only", "time-only", "datetime-only", "string | nil", "string[]", "O", "P", "R", "E", "F", "U", "G"}
	doc := "types:\n  O:\n    properties: {a: string, \"b?\": integer}\n    additionalProperties: false\n  P:\n    properties: {\"/a/\": string, \"/^$/\": P}\n    minProperties: 1\n  R:\n    properties: {\"a?\": R}\n  E: {type: string, enum: [a], pattern: ^a}\n  F: {type: integer, enum: [1], minimum: 0}\n  G: {type: number, enum: [1, 1.5], minimum: 0}\n  U: {uniqueItems: true, minItems: 1, items: any}\n"
	v := vals[ndChoice(len(vals), "value")]
	b, err := vUnwrapped(doc+"  T: "+types[ndChoice(len(types), "type")]+"\n", "T")
	vAssert(err == nil, "the type is well formed")
	vAssert(!vCatch(func() { b.Validate(v) }), "validating a value does not panic")
}

// VH_C10_two_T: two odd nodes in a declaration.
func VH_C10_two_T() {
	c10Files()
	i, j := ndChoice(len(c10Decl), "where"), ndChoice(len(c10Decl), "where")
	vAssume(i < j)
	d := strings.Replace(c10Decl[i], "%", c10Node(), 1) + "\n    " + strings.Replace(c10Decl[j], "%", c10Node(), 1)
	vAssert(!vCatch(func() { ParseFromString(c10Lib+c10Doc(d), "lib.raml", vDir(), OptWithValidate()) }), "parsing a type declaration does not panic")
}
