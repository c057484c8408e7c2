package raml

//use: common.go
//bound: every combination of the facets of objects, arrays and strings with symbolic counts, on a type and below a property or item; every keyword of a schema alone and beside another, at every position of a schema and below every second position

import (
	"encoding/json"
	"strconv"
	"strings"

	orderedmap "github.com/wk8/go-ordered-map/v2"
)

var _ = vReg("VH_C14_matrix", VH_C14_matrix)
var _ = vReg("VH_C14_structure", VH_C14_structure)

// VH_C14_matrix: every combination of facets.
func VH_C14_matrix() {
	n, k := ndUint("n"), ndUint("k")
	var d []string
	pick := func(l ...string) {
		if e := l[ndChoice(len(l), "facet")]; e != "" {
			d = append(d, e)
		}
	}
	var v any
	kind := ndChoice(3, "kind")
	switch kind {
	case 0:
		d = append(d, "type: object")
		pick("", "minProperties: "+vPlace(n))
		pick("", "maxProperties: "+vPlace(k))
		closed := ndChoice(3, "closed")
		if closed > 0 {
			d = append(d, []string{"additionalProperties: false", "additionalProperties: true"}[closed-1])
		}
		props := []string{"", "properties: {}", "properties: {a: integer}", "properties: {\"a?\": integer}", "properties: {/^b/: integer}", "properties: {\"a?\": integer, /^b/: integer}"}
		p := ndChoice(len(props), "properties")
		vAssume(closed != 1 || p < 4)
		if props[p] != "" {
			d = append(d, props[p])
		}
		m := map[string]any{}
		keys := []string{"a", "b", "c"}
		for _, on := range [][]int{{}, {0}, {1}, {2}, {0, 1, 2}, {1, 2}}[ndChoice(6, "keys")] {
			m[keys[on]] = ndInt("v")
		}
		v = m
	case 1:
		d = append(d, "type: array")
		pick("", "minItems: "+vPlace(n))
		pick("", "maxItems: "+vPlace(k))
		pick("", "uniqueItems: true", "uniqueItems: false")
		pick("", "items: integer", "items: string")
		l := []any{}
		for i := ndChoice(4, "length"); i > 0; i-- {
			l = append(l, ndInt("v"))
		}
		v = l
	case 2:
		d = append(d, "type: string")
		pick("", "minLength: "+vPlace(n))
		pick("", "maxLength: "+vPlace(k))
		pick("", "pattern: ^a")
		pick("", "enum: [a, ab, abc, b]")
		v = []string{"", "a", "ab", "b", "abc", "abcd"}[ndChoice(6, "text")]
	}
	at := func(n int, l []string) string {
		return strings.Repeat(" ", n) + strings.Join(l, "\n"+strings.Repeat(" ", n)) + "\n"
	}
	doc := "types:\n  T:\n"
	switch ndChoice(4, "place") {
	case 0:
		doc += at(4, d)
	case 1:
		doc += "    properties:\n      p:\n" + at(8, d)
		v = map[string]any{"p": v}
	case 2:
		doc += "    type: array\n    items:\n" + at(6, d)
		v = []any{v}
	case 3:
		// The type is made of a parent with one half of the facets and a child with the other.
		vAssume(len(d) > 2)
		half := 1 + len(d)/2
		doc += at(4, append([]string{"type: P"}, d[half:]...)) + "  P:\n" + at(4, d[:half])
	}
	r, err := vLib(doc, OptWithUnwrap())
	vAssume(err == nil)
	b := vGet(r, "T")
	c14Judge(b, v, ndBool("plain schema"))
}

func c14One(set func(s *JSONSchemaRAML)) *JSONSchemaRAML {
	s := &JSONSchemaRAML{}
	set(s)
	return s
}

func c14Ordered[V any](k string, v V) *orderedmap.OrderedMap[string, V] {
	m := orderedmap.New[string, V](1)
	m.Set(k, v)
	return m
}

type c14Word struct {
	key  string
	want any
	set  func(s *JSONSchemaRAML)
}

// c14Words are the keywords of a schema without the schemas below it.
func c14Words() []c14Word {
	n, f := ndUint("n"), ndBool("flag")
	num := json.Number(strconv.FormatUint(n, 10))
	p := func() *uint64 { x := n; return &x }
	g := func() *bool { x := f; return &x }
	type S = *JSONSchemaRAML
	return []c14Word{
		{"$schema", "x", func(s S) { s.Version = "x" }},
		{"$id", "x", func(s S) { s.ID = "x" }},
		{"$ref", "x", func(s S) { s.Ref = "x" }},
		{"$comment", "x", func(s S) { s.Comment = "x" }},
		{"type", "x", func(s S) { s.Type = "x" }},
		{"enum", []any{"x", "y"}, func(s S) { s.Enum = []any{"x", "y"} }},
		{"const", "x", func(s S) { s.Const = "x" }},
		{"const", false, func(s S) { s.Const = false }},
		{"multipleOf", json.Number("2"), func(s S) { s.MultipleOf = "2" }},
		{"maximum", json.Number("-0.5"), func(s S) { s.Maximum = "-0.5" }},
		{"minimum", json.Number("0"), func(s S) { s.Minimum = "0" }},
		{"maxLength", num, func(s S) { s.MaxLength = p() }},
		{"minLength", num, func(s S) { s.MinLength = p() }},
		{"pattern", "x", func(s S) { s.Pattern = "x" }},
		{"maxItems", num, func(s S) { s.MaxItems = p() }},
		{"minItems", num, func(s S) { s.MinItems = p() }},
		{"uniqueItems", f, func(s S) { s.UniqueItems = g() }},
		{"maxContains", num, func(s S) { s.MaxContains = p() }},
		{"minContains", num, func(s S) { s.MinContains = p() }},
		{"maxProperties", num, func(s S) { s.MaxProperties = p() }},
		{"minProperties", num, func(s S) { s.MinProperties = p() }},
		{"required", []any{"x", "y"}, func(s S) { s.Required = []string{"x", "y"} }},
		{"contentEncoding", "x", func(s S) { s.ContentEncoding = "x" }},
		{"contentMediaType", "x", func(s S) { s.ContentMediaType = "x" }},
		{"format", "x", func(s S) { s.Format = "x" }},
		{"title", "x", func(s S) { s.Title = "x" }},
		{"description", "x", func(s S) { s.Description = "x" }},
		{"default", false, func(s S) { s.Default = false }},
		{"default", "x", func(s S) { s.Default = "x" }},
		{"examples", []any{"x", "y"}, func(s S) { s.Examples = []any{"x", "y"} }},
		{"additionalProperties", f, func(s S) { s.AdditionalProperties = g() }},
		{"x-annotations", map[string]any{"k": "x"}, func(s S) { s.Annotations = c14Ordered[any]("k", "x") }},
		{"x-facet-data", map[string]any{"k": "x"}, func(s S) { s.FacetData = c14Ordered[any]("k", "x") }},
	}
}

// c14Put places a schema below another and returns what the other then renders to.
func c14Put(at int, below *JSONSchemaRAML, want any) (string, any, func(s *JSONSchemaRAML)) {
	type S = *JSONSchemaRAML
	other := &JSONSchemaRAML{}
	other.Type = "y"
	list, lists := []S{below, other}, []any{want, map[string]any{"type": "y"}}
	switch at {
	case 0:
		return "definitions", map[string]any{"k": want}, func(s S) { s.Definitions = map[string]S{"k": below} }
	case 1:
		return "allOf", lists, func(s S) { s.AllOf = list }
	case 2:
		return "anyOf", lists, func(s S) { s.AnyOf = list }
	case 3:
		return "oneOf", lists, func(s S) { s.OneOf = list }
	case 4:
		return "not", want, func(s S) { s.Not = below }
	case 5:
		return "if", want, func(s S) { s.If = below }
	case 6:
		return "then", want, func(s S) { s.Then = below }
	case 7:
		return "else", want, func(s S) { s.Else = below }
	case 8:
		return "items", want, func(s S) { s.Items = below }
	case 9:
		return "properties", map[string]any{"k": want}, func(s S) { s.Properties = c14Ordered("k", below) }
	case 10:
		return "patternProperties", map[string]any{"k": want}, func(s S) { s.PatternProperties = c14Ordered("k", below) }
	case 11:
		return "propertyNames", want, func(s S) { s.PropertyNames = below }
	}
	return "x-facet-definitions", map[string]any{"k": want}, func(s S) { s.FacetDefinitions = c14Ordered("k", below) }
}

// VH_C14_structure: a schema tells the same as a structure, as a map, as JSON and as a copy.
func VH_C14_structure() {
	words := c14Words()
	i := ndChoice(len(words), "keyword")
	j := ndChoice(3, "second keyword")
	build := func() (*JSONSchemaRAML, map[string]any) {
		s := &JSONSchemaRAML{}
		m := map[string]any{words[i].key: words[i].want}
		words[i].set(s)
		if j > 0 {
			o := words[(i+j*7)%len(words)]
			o.set(s)
			m[o.key] = o.want
		}
		return s, m
	}
	s, want := build()
	depth := ndChoice(3, "depth")
	for d := 0; d < depth; d++ {
		at := 12
		if vThorough || d == 0 || j == 0 {
			at = ndChoice(13, "position")
		}
		key, w, set := c14Put(at, s, want)
		up := &JSONSchemaRAML{}
		m := map[string]any{key: w}
		if d == 0 && j == 2 {
			words[i].set(up)
			m[words[i].key] = words[i].want
		}
		set(up)
		s, want = up, m
	}
	vAssert(c14Same(want, c14Map(s)), "the keywords of the schema are as set")
	vAssert(c14Same(want, s.Map()), "the map of a schema carries every keyword and no other")
	text, err := json.Marshal(s)
	var read map[string]any
	vAssert(err == nil && json.Unmarshal(text, &read) == nil, "a schema can be written as JSON")
	vAssert(c14SameJSON(read, want), "the JSON of a schema carries every keyword of its structure")
	var back *JSONSchemaRAML
	vAssert(json.Unmarshal(text, &back) == nil, "a schema can be read from its JSON")
	vAssert(c14SameJSON(read, c14Map(back)), "a schema can be read from its JSON")
	shallow := s.ShallowCopy()
	deep := s.DeepCopy()
	vAssert(c14Same(want, c14Map(shallow)), "a shallow copy of a schema is equal")
	vAssert(c14Same(want, c14Map(deep)), "a deep copy of a schema is equal")
	c14Wreck(deep)
	vAssert(c14Same(want, c14Map(s)), "a deep copy of a schema is separate")
}
