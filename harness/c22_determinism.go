package raml

//use: common.go c14_schema.go gen.go c02_generic.go
//bound: 19 documents of up to four files that refer to each other (recursion, inheritance, aliases, included data types, custom facets and annotations across files, errors in several files), every order in which the files are visited, with symbolic facets and instances; two parsers whose parse, unwrap and validate steps are interleaved in every order, with the same or other contents of the files
//assume: where a recursion is cut and in which order errors are reported is left open

import (
	"strings"
)

var _ = vReg("VH_C22_order", VH_C22_order)
var _ = vReg("VH_C22_schema", VH_C22_schema)
var _ = vReg("VH_C22_parsers", VH_C22_parsers)

type c22Doc struct {
	files  [][2]string // the first is the entry point
	values []any
}

func c22Docs(lo, x int64) []c22Doc {
	m := vPlace(lo)
	L := func(s string) string { return "#%RAML 1.0 Library\n" + s }
	D := func(s string) string { return "#%RAML 1.0 DataType\n" + s }
	key := func(k string, v any) map[string]any { return map[string]any{k: v} }
	return []c22Doc{
		{[][2]string{{"a.raml", L("uses: {b: b.raml}\ntypes:\n  T: {properties: {\"next?\": b.U, v: {type: integer, minimum: " + m + "}}}\n")}, {"b.raml", L("uses: {a: a.raml}\ntypes:\n  U: {properties: {\"back?\": a.T}, maxProperties: 1}\n")}},
			[]any{key("v", x), map[string]any{"v": x, "next": map[string]any{}}, map[string]any{"v": int64(5), "next": key("back", key("v", x))}, key("next", nil)}},
		{[][2]string{{"a.raml", L("uses: {b: b.raml}\ntypes:\n  T: {type: b.U, maximum: 100}\n  S: b.U\n")}, {"b.raml", L("uses: {c: c.raml}\ntypes:\n  U: {type: c.V, description: d}\n")}, {"c.raml", L("types:\n  V: {type: integer, minimum: " + m + "}\n")}},
			[]any{x, nil}},
		{[][2]string{{"a.raml", L("uses: {b: b.raml}\ntypes:\n  T: !include d.raml\n  S: b.U\n")}, {"d.raml", D("uses: {b: b.raml}\ntype: b.U\nmaximum: 9\n")}, {"b.raml", L("types:\n  U: {type: integer, minimum: " + m + "}\n")}},
			[]any{x, "s"}},
		{[][2]string{{"a.raml", L("uses: {b: b.raml}\nannotationTypes: {n: integer}\ntypes:\n  T: {type: b.F, f: 5, (n): 4, (b.k): text}\n")}, {"b.raml", L("uses: {a: a.raml}\nannotationTypes: {k: string}\ntypes:\n  F: {type: object, facets: {f: integer}, properties: {p: {type: integer, minimum: " + m + "}}}\n  G: {type: a.T, f: 6, (a.n): 1}\n")}},
			[]any{key("p", x), nil}},
		{[][2]string{{"a.raml", L("uses: {b: b.raml}\ntypes:\n  T: {properties: {p: b.U}, default: {p: 5}}\n")}, {"b.raml", L("types:\n  U: {type: integer, minimum: " + m + "}\n")}},
			[]any{key("p", x), nil}},
		{[][2]string{{"a.raml", L("uses: {b: b.raml}\ntypes:\n  T: {type: b.U, minimum: 7}\n")}, {"b.raml", L("uses: {c: c.raml}\ntypes:\n  U: {type: c.V, minimum: " + m + "}\n")}, {"c.raml", L("types:\n  V: {type: integer, minimum: 3}\n")}},
			[]any{x}},
		{[][2]string{{"a.raml", L("uses: {b: b.raml, c: c.raml}\ntypes:\n  T: {properties: {p: b.U, q: c.U}}\n")}, {"b.raml", L("types:\n  U: {type: integer, minimum: 5, maximum: " + m + "}\n")}, {"c.raml", L("types:\n  U: {type: string, minLength: 3, maxLength: 2}\n")}},
			[]any{map[string]any{"p": x, "q": "abc"}}},
		{[][2]string{{"a.raml", L("uses: {b: b.raml, c: c.raml}\ntypes:\n  T: b.X | c.Y\n")}, {"b.raml", L("uses: {c: c.raml}\ntypes:\n  X: {properties: {\"y?\": c.Y, n: {type: integer, minimum: " + m + "}}}\n")}, {"c.raml", L("uses: {b: b.raml}\ntypes:\n  Y: {type: array, items: b.X}\n")}},
			[]any{key("n", x), []any{key("n", x)}, map[string]any{"n": x, "y": []any{key("n", x)}}, x}},
		{[][2]string{{"a.raml", L("types:\n  T: {properties: {d: !include d.raml, e: !include e.raml}}\n")}, {"d.raml", D("type: integer\nminimum: " + m + "\n")}, {"e.raml", D("properties: {f: !include d.raml}\n")}},
			[]any{map[string]any{"d": x, "e": key("f", x)}, map[string]any{"d": x, "e": nil}}},
		{[][2]string{{"a.raml", L("types:\n  T: {properties: {d: !include d.raml}}\n  S: !include d.raml\n")}, {"d.raml", D("type: object\nproperties:\n  \"l?\": !include e.raml\n  i: integer\n")}, {"e.raml", D("type: array\nitems: {type: integer, minimum: " + m + "}\n")}},
			[]any{key("d", map[string]any{"i": x, "l": []any{x}}), key("d", key("l", x))}},
		{[][2]string{{"a.raml", L("uses: {b: b.raml, c: c.raml}\ntypes:\n  T: {type: [b.P, c.Q], maxProperties: 3}\n")}, {"b.raml", L("uses: {c: c.raml}\ntypes:\n  P: {type: c.R, properties: {p: integer}}\n")}, {"c.raml", L("types:\n  R: {properties: {r: {type: integer, minimum: " + m + "}}}\n  Q: {type: R, properties: {q: string}}\n")}},
			[]any{map[string]any{"p": x, "q": "s", "r": x}, map[string]any{"p": x, "r": x}}},
		{[][2]string{{"a.raml", L("uses: {b: b.raml}\ntypes:\n  T: {type: b.N, example: {v: 1}}\n")}, {"b.raml", L("types:\n  N: {properties: {v: {type: integer, minimum: " + m + "}, \"n?\": N, \"m?\": M}}\n  M: {type: N, properties: {w: string}}\n")}},
			[]any{key("v", x), map[string]any{"v": x, "n": key("v", x)}, map[string]any{"v": x, "m": key("v", x)}, map[string]any{"v": x, "m": map[string]any{"v": x, "w": "s"}}}},
		{[][2]string{{"a.raml", D("uses: {b: b.raml}\ntype: b.U\nexample: 5\n")}, {"b.raml", L("uses: {c: c.raml}\ntypes:\n  U: {type: c.U, maximum: 8}\n")}, {"c.raml", L("types:\n  U: {type: integer, minimum: " + m + "}\n")}},
			[]any{x}},
		{[][2]string{{"a.raml", L("uses: {b: b.raml}\ntypes:\n  T: {type: b.E, examples: !include n.raml}\n")}, {"b.raml", L("types:\n  E: {type: integer, minimum: 2, enum: [3, 7, 5]}\n")}, {"n.raml", "#%RAML 1.0 NamedExample\na: 5\nb: " + m + "\n"}},
			[]any{x}},
		{[][2]string{{"a.raml", L("types:\n  T: {type: integer, minimum: " + m + ", default: !include v.json, example: !include w.yaml}\n")}, {"v.json", "5"}, {"w.yaml", "5"}, {"u.txt", "integer"}},
			[]any{x}},
		{[][2]string{{"a.raml", L("types:\n  T: {type: any, default: [!include w.yaml], example: !include u.txt}\n  U: {type: integer, minimum: " + m + "}\n")}, {"w.yaml", "a: integer\n"}, {"u.txt", "integer"}},
			[]any{x}},
		{[][2]string{{"a.raml", L("uses: {b: b.raml}\ntypes:\n  T: {type: b.U, f: 5}\n")}, {"b.raml", L("types:\n  U: {type: integer, facets: {\"e?\": string, \"f?\": {type: integer, minimum: " + m + "}}}\n")}},
			[]any{x}},
		{[][2]string{{"a.raml", L("types:\n  T: {type: [V, W], \"f\": 5, g: s}\n  V: {type: object, facets: {f: integer}}\n  W: {type: object, facets: {\"g?\": {type: string, minLength: 1}}, properties: {n: {type: integer, minimum: " + m + "}}}\n")}},
			[]any{key("n", x)}},
		// types that become a union, or one member of it, when they inherit from several types
		{[][2]string{{"a.raml", L("uses: {b: b.raml}\ntypes:\n  T: {properties: {p: b.A, \"q?\": {type: b.A}, \"r?\": b.B, \"s?\": {type: b.N, (b.K): 17}}}\n")}, {"b.raml", L("annotationTypes:\n  K: {type: [N, U], minimum: 15}\ntypes:\n  A: {type: [N, U], minimum: " + m + "}\n  B: {type: [N, U]}\n  N: integer\n  U: V | W\n  V: {type: integer, minimum: 10, maximum: 100}\n  W: {type: integer, minimum: 20, maximum: 200}\n")}},
			[]any{map[string]any{"p": x, "q": x}, map[string]any{"p": x, "r": x}}},
	}
}

// c22Type is the type of an entry point.
func c22Type(r *RAML) *BaseShape {
	if d, ok := r.EntryPoint().(*DataType); ok {
		return d.Shape
	}
	return vGet(r, "T")
}

// c22Facets lists the facets of a type and those below it, without following recursion.
func c22Facets(b *BaseShape, depth int) string {
	if b == nil || depth == 0 {
		return "-"
	}
	if r, ok := b.Shape.(*RecursiveShape); ok {
		b = r.Head
	}
	s := b.Type + "{"
	for _, n := range vFacetNames {
		switch v := vFacet(b, n).(type) {
		case nil:
		case string:
			if !strings.HasPrefix(v, "no such") {
				s += n + ":" + v + ","
			}
		default:
			s += n + ","
		}
	}
	if u, ok := b.Shape.(*UnionShape); ok {
		for _, m := range u.AnyOf {
			s += c22Facets(m, depth-1)
		}
	}
	if a, ok := b.Shape.(*ArrayShape); ok && a.Items != nil {
		s += c22Facets(a.Items, depth-1)
	}
	if o, ok := b.Shape.(*ObjectShape); ok {
		for p := o.Properties.Oldest(); p != nil; p = p.Next() {
			s += p.Key + ":" + c22Facets(p.Value.Base, depth-1)
		}
	}
	if b.Default != nil {
		s += "default:" + vTxt(b.Default.Value)
	}
	if b.Example != nil {
		s += "example:" + vTxt(b.Example.Data.Value)
	}
	for p := b.CustomShapeFacets.Oldest(); p != nil; p = p.Next() {
		s += p.Key + "=" + vTxt(p.Value.Value)
	}
	for p := b.CustomDomainProperties.Oldest(); p != nil; p = p.Next() {
		s += "(" + p.Key + ")=" + vTxt(p.Value.Extension.Value)
		if p.Value.DefinedBy != nil {
			s += p.Value.DefinedBy.Name + p.Value.DefinedBy.Type
		}
	}
	return s + "}"
}

func c22Opts(mode int) []ParseOpt {
	return [][]ParseOpt{nil, {OptWithUnwrap()}, {OptWithValidate()}, {OptWithUnwrap(), OptWithValidate()}}[mode]
}

// VH_C22_order: the order in which files are visited does not matter.
func VH_C22_order() {
	lo, x := ndInt("lo"), ndInt("x")
	docs := c22Docs(lo, x)
	d := docs[ndChoice(len(docs), "document")]
	for _, f := range d.files {
		vFile(f[0], f[1])
	}
	opts := c22Opts(1 + ndChoice(3, "mode"))
	first, err1 := ParseFromString(d.files[0][1], d.files[0][0], vDir(), opts...)
	vMapOrder(true)
	second, err2 := ParseFromString(d.files[0][1], d.files[0][0], vDir(), opts...)
	vMapOrder(false)
	vAssert((err1 == nil) == (err2 == nil), "a document is valid or not whatever the order")
	if err1 != nil || err2 != nil {
		return
	}
	a, b := c22Type(first), c22Type(second)
	vAssert(c22Facets(a, 5) == c22Facets(b, 5), "a type has the same facets whatever the order")
	if !a.IsUnwrapped() {
		vAssert(!b.IsUnwrapped(), "a type is unwrapped or not whatever the order")
		return
	}
	vAssert(b.IsUnwrapped(), "a type is unwrapped or not whatever the order")
	for _, v := range d.values {
		vAssert(vOK(a, v) == vOK(b, v), "a type accepts the same values whatever the order")
	}
}

// VH_C22_schema: the schema of a type, its map and its copy do not depend on the order of its definitions.
func VH_C22_schema() {
	n := ndUint("n")
	docs := []string{
		"  T: '{\"type\": \"object\", \"properties\": {\"a\": {\"$ref\": \"#/definitions/x\"}, \"n\": {\"$ref\": \"#\"}}, \"definitions\": {\"x\": {\"minLength\": " + vPlace(n) + "}, \"y\": {\"$ref\": \"#/definitions/x\"}, \"z\": {\"items\": {\"$ref\": \"#\"}}}}'\n",
		"  T: {properties: {a: '{\"$ref\": \"#/definitions/x\", \"definitions\": {\"x\": {\"maxItems\": " + vPlace(n) + "}, \"T\": {\"$ref\": \"#\"}}}', \"t?\": T}}\n",
		"  T: {properties: {\"a?\": A, \"b?\": B, \"t?\": T}}\n  A: {properties: {\"n?\": A, \"b?\": B}, minProperties: " + vPlace(n) + "}\n  B: {properties: {\"n?\": B, \"a?\": A}}\n",
		"  T: {properties: {a: '{\"definitions\": {\"x\": {\"definitions\": {\"p\": {\"$ref\": \"#/definitions/x\"}, \"q\": {}}}, \"y\": {}}}', b: '{\"definitions\": {\"x\": {\"minimum\": " + vPlace(n) + "}, \"y\": {\"$ref\": \"#/definitions/y\"}}}'}}\n",
	}
	b, err := vUnwrapped("types:\n"+docs[ndChoice(len(docs), "document")], "T")
	vAssert(err == nil, "the type is well formed")
	if err != nil {
		return
	}
	plain := ndBool("plain schema")
	first := c14Convert(b, plain)
	vMapOrder(true)
	second := c14Convert(b, plain)
	vMapOrder(false)
	vAssert(c14Same(first, second), "a type has the same schema whatever the order")
}

// VH_C22_parsers: parsers do not disturb each other.
func VH_C22_parsers() {
	lo, x := ndInt("lo"), ndInt("x")
	docs := c22Docs(lo, x)
	i := ndChoice(len(docs), "document")
	d := docs[i]
	other := []string{
		"#%RAML 1.0 Library\nuses: {b: b.raml}\ntypes:\n  T: {type: string, minLength: 99}\n  U: T\n  N: {properties: {n?: N}}\n",
		"#%RAML 1.0 Library\ntypes:\n  T: {type: none}\n",
		d.files[0][1],
	}[ndChoice(3, "other document")]
	for _, f := range d.files {
		vFile(f[0], f[1])
	}
	if i == 2 || i == 8 || i == 9 {
		vFile("b.raml", "#%RAML 1.0 Library\ntypes:\n  U: {type: integer, minimum: "+vPlace(lo)+"}\n")
	}
	// The same documents elsewhere, so that nothing kept for a path is shared.
	for _, f := range d.files {
		vFile("alone/"+f[0], f[1])
	}
	alone, err1 := ParseFromString(d.files[0][1], d.files[0][0], vDir()+"/alone", c22Opts(3)...)
	at := ndChoice(4, "when")
	changed := ndBool("the files change meanwhile")
	disturb := func(n int) {
		if n == at {
			if changed {
				// the other parser sees other files of the same names
				for _, f := range d.files {
					vFile(f[0], strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(f[1], "minimum", "maximum"), "integer", "number"), "5", "6"))
				}
				defer func() {
					for _, f := range d.files {
						vFile(f[0], f[1])
					}
				}()
			}
			if r, err := ParseFromString(other, "a.raml", vDir(), c22Opts(n)...); err == nil {
				r.UnwrapShapes()
				r.ValidateShapes()
			}
			if changed {
				ParseFromPath(vDir()+"/a.raml", c22Opts(n)...)
			}
		}
	}
	disturb(0)
	r, err2 := ParseFromString(d.files[0][1], d.files[0][0], vDir())
	disturb(1)
	if err2 == nil {
		err2 = r.UnwrapShapes()
		disturb(2)
		if err2 == nil {
			err2 = r.ValidateShapes()
			disturb(3)
		}
	}
	vAssert((err1 == nil) == (err2 == nil), "a document is valid or not whatever else is parsed")
	if err1 != nil || err2 != nil {
		return
	}
	a, b := c22Type(alone), c22Type(r)
	vAssert(c22Facets(a, 5) == c22Facets(b, 5), "a type has the same facets whatever else is parsed")
	for _, v := range d.values {
		vAssert(vOK(a, v) == vOK(b, v), "a type accepts the same values whatever else is parsed")
	}
}
