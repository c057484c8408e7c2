package raml

//use: common.go gen.go place.go
//bound: example, examples (inline and included NamedExample), default, annotation and custom facet values for scalar types with symbolic facets at 18 places of declaration, and for 31 composite types with every value that deviates from a member in one node; annotations at 14 places with annotation types of six kinds, local or from a library; custom facet definitions at every distance (parent, grandparent, alias, several parents, included data type, library, every graph of two parents and two grandparents with up to two definitions) with symbolic values; validated with and without prior unwrapping
//assume: values that start with '{' and are written as a string are JSON; allowedTargets is not enforced (documented)

import "strings"

var _ = vReg("VH_C09_places", VH_C09_places)
var _ = vReg("VH_C09_forms", VH_C09_forms)
var _ = vReg("VH_C09_not_strict", VH_C09_not_strict)
var _ = vReg("VH_C09_composite", VH_C09_composite)
var _ = vReg("VH_C09_composite_T", VH_C09_composite_T)
var _ = vReg("VH_C09_derived", VH_C09_derived)
var _ = vReg("VH_C09_recursive", VH_C09_recursive)
var _ = vReg("VH_C09_string", VH_C09_string)
var _ = vReg("VH_C09_annotations", VH_C09_annotations)
var _ = vReg("VH_C09_annotation_types", VH_C09_annotation_types)
var _ = vReg("VH_C09_facets", VH_C09_facets)
var _ = vReg("VH_C09_facet_graph", VH_C09_facet_graph)
var _ = vReg("VH_C09_facet_graph_T", VH_C09_facet_graph_T)
var _ = vReg("VH_C09_facet_places", VH_C09_facet_places)
var _ = vReg("VH_C09_facet_types", VH_C09_facet_types)
var _ = vReg("VH_C09_facet_override", VH_C09_facet_override)

func c09Valid(doc string) bool {
	opts := []ParseOpt{OptWithValidate()}
	if ndBool("unwrap first") {
		opts = append(opts, OptWithUnwrap())
	}
	_, err := ParseFromString("#%RAML 1.0 Library\n"+doc, "lib.raml", vDir(), opts...)
	return err == nil
}

// gFlow renders a value as YAML.
func gFlow(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case []any:
		var l []string
		for _, e := range x {
			l = append(l, gFlow(e))
		}
		return "[" + strings.Join(l, ", ") + "]"
	case map[string]any:
		s := ""
		for k, e := range x {
			if s != "" {
				s += ", "
			}
			s += "\"" + k + "\": " + gFlow(e)
		}
		return "{" + s + "}"
	}
	return vPlace(v)
}

// VH_C09_places: every place of declaration, single integer value.
func VH_C09_places() {
	lo, x := ndInt("lo"), ndInt("x")
	decl := []string{"type: integer", "minimum: " + vPlace(lo), []string{"example", "default"}[ndChoice(2, "form")] + ": " + vPlace(x)}
	vAssert(c09Valid(vDecl(decl, ndChoice(vPlaces, "place"))) == (x >= lo), "a library is rejected exactly when an example or default does not match its type")
}

// VH_C09_forms: every way to write values.
func VH_C09_forms() {
	k := ndChoice(4, "kind")
	var decl []string
	x, y := ndInt("x"), ndInt("y")
	xs, ys := vPlace(x), vPlace(y)
	var okx, oky bool
	switch k {
	case 0:
		lo, hi := ndInt("lo"), ndInt("hi")
		vAssume(lo <= hi)
		decl = []string{"type: integer", "minimum: " + vPlace(lo), "maximum: " + vPlace(hi)}
		okx, oky = vAnd(x >= lo, x <= hi), vAnd(y >= lo, y <= hi)
	case 1:
		decl = []string{"type: string"}
		okx, oky = false, false
		if ndBool("x is a string") {
			xs, okx = "word", true
		}
		if ndBool("y is a string") {
			ys, oky = "\"5\"", true
		}
	case 2:
		hi := ndInt("hi")
		decl = []string{"type: array", "items:", "  type: integer", "  maximum: " + vPlace(hi)}
		xs, ys = "["+xs+"]", "[1, "+ys+"]"
		okx, oky = x <= hi, vAnd(1 <= hi, y <= hi)
	case 3:
		hi := ndInt("hi")
		decl = []string{"type: object", "properties:", "  a:", "    type: integer", "    maximum: " + vPlace(hi), "  value?: string"}
		xs, ys = "{a: "+xs+"}", "{b: 1, a: "+ys+"}"
		okx, oky = x <= hi, y <= hi
	}
	ok := okx
	two := vAnd(okx, oky)
	switch ndChoice(13, "form") {
	case 0:
		decl = append(decl, "example: "+xs)
	case 1:
		decl = append(decl, "example:", "  value: "+xs)
	case 2:
		decl = append(decl, "example:", "  displayName: d", "  description: e", "  strict: true", "  value: "+xs)
	case 3:
		decl = append(decl, "examples:", "  one: "+xs, "  two: "+ys)
		ok = two
	case 4:
		decl = append(decl, "examples:", "  one:", "    value: "+xs, "    strict: true", "  two:", "    value: "+ys, "  three: "+xs)
		ok = two
	case 5:
		decl = append(decl, "default: "+xs)
	case 6:
		decl = append(decl, "default: "+xs, "example: "+ys)
		ok = two
	case 7:
		decl = append(decl, "default: "+xs, "examples:", "  one: "+ys)
		ok = two
	case 8:
		vFile("e.raml", "#%RAML 1.0 NamedExample\none: "+xs+"\ntwo:\n  value: "+ys+"\n  displayName: d\n")
		decl = append(decl, "examples: !include e.raml")
		ok = two
	case 9:
		vFile("e.yaml", xs+"\n")
		decl = append(decl, "example: !include e.yaml")
		vAssume(k != 1)
	case 10:
		vFile("e.yaml", ys+"\n")
		decl = append(decl, "examples:", "  one: "+xs, "  two: !include e.yaml")
		vAssume(k != 1)
		ok = two
	case 11:
		vFile("e.yaml", ys+"\n")
		decl = append(decl, "default: !include e.yaml")
		vAssume(k != 1)
		ok = oky
	case 12:
		decl = append(decl, "examples: {}")
		ok = true
	}
	vAssert(c09Valid(vDecl(decl, []int{0, 2, 5, 11}[ndChoice(4, "place")])) == ok, "a library is rejected exactly when an example or default does not match its type")
}

// VH_C09_not_strict: examples marked as not strict are not validated.
func VH_C09_not_strict() {
	lo, x, y := ndInt("lo"), ndInt("x"), ndInt("y")
	decl := []string{"type: integer", "minimum: " + vPlace(lo)}
	ok := true
	if ndBool("one") {
		decl = append(decl, "example:", "  value: "+vPlace(x), "  strict: false")
	} else {
		decl = append(decl, "examples:", "  one:", "    strict: false", "    value: "+vPlace(x), "  two:", "    value: "+vPlace(y))
		ok = y >= lo
	}
	vAssert(c09Valid(vDecl(decl, []int{0, 2, 5}[ndChoice(3, "place")])) == ok, "an example that is not strict is not validated")
}

func c09Types() []func() *gT {
	return []func() *gT{
		func() *gT {
			return gObj(gReq("a", gInt("a")), gOpt("b", gStr("b")), gReq("c", gK("boolean")), gReq("e", gK("nil")))
		},
		func() *gT { return gObj(gReq("a", gObj(gOpt("b", gMax("b"))).close())).with(gPre("x", gMin("x"))) },
		func() *gT { return gArr(gObj(gReq("d", gMin("d")), gOpt("l", gArr(gStr("s"))))) },
		func() *gT { return gArr(gU(gRef("I", gMin("i")), gRef("S", gStr("s")), gK("nil"))).unique() },
		func() *gT {
			return gU(gRef("A", gObj(gReq("k", gMin("k"))).close()), gRef("B", gObj(gReq("k", gMax("k")), gOpt("l", gK("string")))))
		},
		func() *gT {
			n := gObj(gReq("v", gMin("v")))
			r := gRef("R", n)
			n.props = append(n.props, gOpt("next", r), gOpt("kids", gArr(r)))
			return gObj(gReq("r", r))
		},
	}
}

func c09Composite(devs int) {
	ts := c09Types()
	t := ts[ndChoice(len(ts), "type")]()
	vAssume(t.sane())
	g := &gGen{depth: 2, long: 1}
	if vThorough {
		g = &gGen{depth: 3, long: 2}
	}
	for i := 0; i < devs; i++ {
		g.dev = append(g.dev, ndChoice(14, "where")-1)
	}
	for i := 1; i < devs; i++ {
		vAssume(g.dev[i] > g.dev[i-1])
	}
	v := g.val(t)
	for _, d := range g.dev {
		vAssume(d < g.n)
	}
	doc := gDoc(t)
	val := gFlow(v)
	switch i := ndChoice(4, "form"); i {
	case 0:
		doc += "  U:\n    type: T\n    example: " + val + "\n"
	case 1:
		doc += "  U:\n    properties:\n      p:\n        type: T\n        examples:\n          x: {value: " + val + "}\n"
	case 2:
		doc += "  U:\n    items:\n      type: T\n      default: " + val + "\n"
	case 3:
		doc += "  U:\n    type: object\n    (an): " + val + "\nannotationTypes:\n  an: T\n"
	}
	if _, list := v.([]any); !list {
		if _, m := v.(map[string]any); !m {
			return // scalars are covered elsewhere
		}
	}
	vAssert(c09Valid(doc) == t.ok(v), "a library is rejected exactly when a composite value in it does not match its type")
}

func VH_C09_composite()   { c09Composite(1) }
func VH_C09_composite_T() { c09Composite(2) }

// VH_C09_derived: the value of a type is validated against everything the type inherits.
func VH_C09_derived() {
	lo, hi, x := ndInt("lo"), ndInt("hi"), ndInt("x")
	v := vPlace(x)
	ok := vAnd(x >= lo, x <= hi)
	P := "type: integer\n    minimum: " + vPlace(lo) + "\n"
	H := "maximum: " + vPlace(hi) + "\n"
	vAssume(lo <= hi)
	var doc string
	switch ndChoice(8, "derivation") {
	case 0:
		doc = "types:\n  C:\n    type: P\n    example: " + v + "\n    " + H + "  P:\n    " + P
	case 1:
		doc = "types:\n  P:\n    " + P + "  Q:\n    type: P\n    " + H + "  C:\n    type: Q\n    description: d\n    default: " + v + "\n"
	case 2:
		doc = "types:\n  A: string | C\n  C:\n    type: M\n    " + H + "    examples:\n      e: " + v + "\n  M: P\n  P:\n    " + P
	case 3:
		doc = "types:\n  P:\n    " + P + "  Q:\n    type: integer\n    " + H + "  C:\n    type: [P, Q]\n    example: " + v + "\n"
	case 4:
		doc = "types:\n  O:\n    properties:\n      a:\n        type: P\n  D:\n    type: O\n    properties:\n      a:\n        type: integer\n        " + H + "        example: " + v + "\n  P:\n    " + P
	case 5:
		doc = "types:\n  O:\n    items:\n        type: P\n  D:\n    type: O\n    items:\n        type: integer\n        default: " + v + "\n        " + H + "  P:\n    " + P
	case 6:
		doc = "types:\n  O:\n    example: {a: " + v + "}\n    type: B\n  B:\n    properties:\n      a:\n        type: P\n        " + H + "  P:\n    " + P
	case 7:
		doc = "types:\n  U: P | string\n  C:\n    type: U\n    example: " + v + "\n  P:\n    " + P
		ok = x >= lo
	}
	vAssert(c09Valid(doc) == ok, "a value is validated against the inherited facets too")
}

// VH_C09_recursive: values of types that contain themselves.
func VH_C09_recursive() {
	lo, x := ndInt("lo"), ndInt("x")
	n := "      v:\n        type: integer\n        minimum: " + vPlace(lo) + "\n"
	v := "{v: " + vPlace(x) + "}"
	ok := x >= lo
	if ndBool("deep") {
		v = "{v: 9223372036854775807, next: {v: 9223372036854775807, next: " + v + "}}"
	}
	var doc string
	switch ndChoice(5, "where") {
	case 0:
		doc = "types:\n  N:\n    properties:\n" + n + "      next?: N\n    example: " + v + "\n"
	case 1:
		doc = "types:\n  N:\n    properties:\n" + n + "      next?:\n        type: N\n        example: " + v + "\n"
	case 2:
		doc = "types:\n  N:\n    properties:\n" + n + "      next?: N\n      kids?:\n        items:\n          type: N\n          default: " + v + "\n"
	case 3:
		doc = "types:\n  N:\n    properties:\n" + n + "      next?: N\n      kids?:\n        type: N[]\n        example: [" + v + "]\n"
	case 4:
		doc = "types:\n  M:\n    properties:\n      n?:\n        type: N\n        examples:\n          e: " + v + "\n  N:\n    properties:\n" + n + "      m?: M\n      next?: N\n"
	}
	vAssert(c09Valid(doc) == ok, "a value inside a recursive type is validated")
}

// VH_C09_annotations: every place an annotation can be applied.
func VH_C09_annotations() {
	lo, x := ndInt("lo"), ndInt("x")
	A := "annotationTypes:\n  A:\n    type: integer\n    minimum: " + vPlace(lo) + "\n"
	name := "A"
	pre := A
	switch ndChoice(4, "annotation type") {
	case 1:
		name = "l.A"
		vFile("l.raml", "#%RAML 1.0 Library\n"+A)
		pre = "uses:\n  l: l.raml\n"
	case 2:
		name = "B"
		pre = A + "  B:\n    type: integer\n    minimum: " + vPlace(lo) + "\n    maximum: 9223372036854775807\n"
	case 3:
		name = "C"
		pre = "types:\n  X: string\n" + A + "  C: K\ntypes:\n  K:\n    type: integer\n    minimum: " + vPlace(lo) + "\n"
		pre = strings.Replace(pre, "types:\n  X: string\n", "", 1)
	}
	an := "(" + name + "): " + vPlace(x) + "\n"
	types := "types:\n"
	if strings.Contains(pre, "\ntypes:\n") { // the types section is already there, at the end
		types = ""
	}
	var doc string
	switch ndChoice(13, "place") {
	case 0:
		doc = pre + an
	case 1:
		doc = an + pre
	case 2:
		doc = pre + types + "  T:\n    type: string\n    " + an
	case 3:
		doc = pre + types + "  T:\n    " + an
	case 4:
		doc = pre + types + "  T:\n    properties:\n      p?:\n        " + an
	case 5:
		doc = pre + types + "  T:\n    properties:\n      /^p/:\n        type: nil\n        " + an
	case 6:
		doc = pre + types + "  T:\n    items:\n      properties:\n        q:\n          items:\n            " + an
	case 7:
		doc = pre + types + "  T:\n    type: string\n    example:\n      value: s\n      " + an
	case 8:
		doc = pre + types + "  T:\n    type: string\n    examples:\n      e: s\n      f:\n        " + an + "        value: s\n"
	case 9:
		doc = pre + types + "  T:\n    facets:\n      f?:\n        " + an
	case 10:
		if name != "l.A" { // annotation types of their own
			return
		}
		vFile("d.raml", "#%RAML 1.0 DataType\nuses:\n  l: l.raml\nproperties:\n  p:\n    "+an)
		doc = "types:\n  T: !include d.raml\n"
	case 11:
		if name == "l.A" {
			doc = pre + "annotationTypes:\n  Z:\n    type: string\n    " + an
		} else {
			vFile("m.raml", "#%RAML 1.0 Library\n"+pre+types+"  T:\n    "+an)
			doc = "uses:\n  m: m.raml\n"
		}
	case 12:
		doc = pre + types + "  T:\n    " + an + "  U: T\n  V:\n    type: T\n    " + an + "  W: T | string\n"
	}
	vAssert(c09Valid(doc) == (x >= lo), "a library is rejected exactly when the value of an annotation does not match its type")
}

// VH_C09_annotation_types: kinds of annotation types.
func VH_C09_annotation_types() {
	lo, x := ndInt("lo"), ndInt("x")
	m := "minimum: " + vPlace(lo) + "\n"
	var typ, val string
	ok := x >= lo
	switch ndChoice(8, "kind") {
	case 0:
		typ, val = "type: array\n    items:\n      type: integer\n      "+m, "[9223372036854775807, "+vPlace(x)+"]"
	case 1:
		typ, val = "properties:\n      a?: string\n      b:\n        type: integer\n        "+m, "{b: "+vPlace(x)+"}"
	case 2:
		typ, val = "type: P\n    description: d\n", vPlace(x)
	case 3:
		typ, val = "type: P | nil\n", vPlace(x)
		if ndBool("null") {
			val, ok = "null", true
		}
	case 4:
		typ, val = "type: string\n", []string{"word", "7", "null", "[]", "\"7\"", "\"\""}[ndChoice(6, "value")]
		ok = val == "word" || val == "\"7\"" || val == "\"\""
	case 5:
		typ, val = "type: nil\n", []string{"null", "", "0", "\"\""}[ndChoice(4, "value")]
		ok = val == "null" || val == ""
	case 6:
		typ, val = "type: boolean\n", []string{"true", "False", "\"true\"", "1"}[ndChoice(4, "value")]
		ok = val == "true" || val == "False"
	case 7:
		typ, val = "type: L\n", "{v: 9223372036854775807, n: {v: "+vPlace(x)+"}}"
	}
	doc := "types:\n  P:\n    type: integer\n    " + m + "  L:\n    properties:\n      v: P\n      n?: L\n  T:\n    type: object\n    (an): " + val + "\nannotationTypes:\n  an:\n    " + typ
	vAssert(c09Valid(doc) == ok, "a library is rejected exactly when the value of an annotation does not match its type")
}

// VH_C09_facets: custom facets at every distance from their definition.
func VH_C09_facets() {
	lo, x, y := ndInt("lo"), ndInt("x"), ndInt("y")
	have := ndChoice(3, "values") // none, f, f and g
	opt := ndBool("f optional")
	F := "    facets:\n      \"f?\":\n        type: integer\n        minimum: " + vPlace(lo) + "\n"
	if !opt {
		F = strings.Replace(F, "f?", "f", 1)
	}
	G := "    facets:\n      \"g?\":\n        type: integer\n        maximum: 100\n"
	val := ""
	ok := opt
	if have > 0 {
		val = "    f: " + vPlace(x) + "\n"
		ok = x >= lo
	}
	if have > 1 {
		val += "    g: " + vPlace(y) + "\n"
	}
	known := false // g is defined
	var doc string
	switch ndChoice(9, "distance") {
	case 0:
		doc = "types:\n  A:\n    type: string\n" + F + "  C:\n    type: A\n" + val
	case 1: // grandparent; the parent has to have the facet as well
		doc = "types:\n  C:\n    type: B\n" + val + "  B:\n    type: A\n    f: 9223372036854775807\n" + G + "  A:\n    type: string\n" + F
		known = true
		if have == 0 {
			ok = true // inherited from B
		}
	case 2: // alias
		doc = "types:\n  A:\n    type: string\n" + F + "  B: A\n  D: B\n  C:\n    type: D\n" + val
	case 3: // two parents
		doc = "types:\n  A:\n    type: string\n" + F + "  B:\n    type: string\n" + G + "  C:\n    type: [A, B]\n" + val
		known = true
	case 4:
		doc = "types:\n  A:\n    type: string\n" + F + "  B:\n    type: string\n" + G + "  C:\n    type: [B, A]\n" + val
		known = true
	case 5: // data type
		vFile("d.raml", "#%RAML 1.0 DataType\ntype: string\n"+strings.ReplaceAll(strings.Replace(F, "    facets", "facets", 1), "\n    ", "\n"))
		doc = "types:\n  C:\n    type: !include d.raml\n" + val
	case 6:
		vFile("d.raml", "#%RAML 1.0 DataType\ntype: string\n"+strings.ReplaceAll(strings.Replace(F, "    facets", "facets", 1), "\n    ", "\n"))
		doc = "types:\n  D: !include d.raml\n  C:\n    type: D\n" + val
		if !opt { // D derives from the data type
			return
		}
	case 7: // library
		vFile("l.raml", "#%RAML 1.0 Library\ntypes:\n  A:\n    type: string\n"+F)
		doc = "uses:\n  l: l.raml\ntypes:\n  C:\n    type: l.A\n" + val
	case 8: // an own definition is for derived types only
		doc = "types:\n  C:\n    type: string\n" + F + val
		ok = have == 0
	}
	if have > 1 {
		ok = vAnd(ok, known, y <= 100)
	}
	vAssert(c09Valid(doc) == ok, "a library is rejected exactly when a custom facet is missing, unknown or of a wrong value")
}

// VH_C09_facet_places: types with custom facets anywhere.
func VH_C09_facet_places() {
	lo, x := ndInt("lo"), ndInt("x")
	ok := x >= lo
	f := "f: " + vPlace(x)
	kind := []string{"integer", "string", "object", "array", "nil", "any", "boolean"}[ndChoice(7, "kind")]
	place := ndChoice(9, "place")
	A := "  A:\n    type: " + kind + "\n    facets:\n      f:\n        type: integer\n        minimum: " + vPlace(lo) + "\n"
	var doc string
	switch place {
	case 0:
		doc = "types:\n" + A + "  O:\n    properties:\n      a:\n        type: A\n        " + f + "\n"
	case 1:
		doc = "types:\n" + A + "  O:\n    properties:\n      /^a/:\n        type: A\n        " + f + "\n"
	case 2:
		doc = "types:\n" + A + "  O:\n    items:\n        type: A\n        " + f + "\n"
	case 3:
		doc = "types:\n  M:\n    type: A\n    " + f + "\n  U: M | string\n" + A
	case 4:
		doc = "types:\n" + A + "annotationTypes:\n  N:\n    type: A\n    " + f + "\n"
	case 5:
		doc = "types:\n  O:\n    facets:\n      g:\n        type: A\n        " + f + "\n" + A
	case 6:
		vFile("l.raml", "#%RAML 1.0 Library\ntypes:\n"+A)
		vFile("d.raml", "#%RAML 1.0 DataType\nuses:\n  l: l.raml\nproperties:\n  a?:\n    items:\n      type: l.A\n      "+f+"\n")
		doc = "types:\n  X: !include d.raml\n"
	case 7: // not required of an alias or a use
		doc = "types:\n" + A + "  B: A\n  O:\n    properties:\n      a: A\n      b: A[]\n  P:\n    type: A\n    " + f + "\n"
	case 8:
		doc = "types:\n" + A + "  O:\n    properties:\n      a:\n        properties:\n          b:\n            items:\n              properties:\n                c:\n                  type: A\n                  description: d\n"
		ok = false
	}
	vAssert(c09Valid(doc) == ok, "a library is rejected exactly when a custom facet is missing, unknown or of a wrong value")
}

// VH_C09_facet_types: kinds of custom facets.
func VH_C09_facet_types() {
	lo, x := ndInt("lo"), ndInt("x")
	m := "minimum: " + vPlace(lo) + "\n"
	var typ, val string
	ok := x >= lo
	switch ndChoice(7, "kind") {
	case 0:
		typ, val = "\n        items:\n          type: integer\n          "+m, "[9223372036854775807, "+vPlace(x)+"]"
	case 1:
		typ, val = "\n        properties:\n          a?: string\n          b:\n            type: integer\n            "+m, "{b: "+vPlace(x)+"}"
	case 2:
		typ, val = " P\n", vPlace(x)
	case 3:
		typ, val = " P | nil\n", vPlace(x)
		if ndBool("null") {
			val, ok = "null", true
		}
	case 4:
		typ, val = "\n", []string{"word", "7", "null", "[]"}[ndChoice(4, "value")]
		ok = val == "word"
	case 5:
		typ, val = " L\n", "{v: 9223372036854775807, n: {v: "+vPlace(x)+"}}"
	case 6:
		typ, val = " !include d.raml\n", vPlace(x)
		vFile("d.raml", "#%RAML 1.0 DataType\ntype: integer\n"+m)
	}
	doc := "types:\n  C:\n    type: A\n    f: " + val + "\n  P:\n    type: integer\n    " + m + "  L:\n    properties:\n      v: P\n      n?: L\n  A:\n    type: nil\n    facets:\n      f:" + typ
	vAssert(c09Valid(doc) == ok, "a library is rejected exactly when a custom facet is missing, unknown or of a wrong value")
}

// VH_C09_facet_override: custom facets inherited along with an overridden property or item.
func VH_C09_facet_override() {
	x, lo, y := ndInt("x"), ndInt("lo"), ndInt("y")
	A := "  A:\n    type: string\n    facets:\n      f:\n        type: integer\n        minimum: " + vPlace(lo) + "\n"
	ok := x >= lo
	over := ndChoice(3, "override")
	t := []string{"type: string", "type: A\n        f: " + vPlace(y), "type: string | B"}[over]
	if over == 1 {
		ok = vAnd(ok, y >= lo)
	}
	B := "  B:\n    type: string\n    minLength: 0\n"
	var doc string
	switch ndChoice(3, "site") {
	case 0:
		doc = "  O:\n    properties:\n      a:\n        type: A\n        f: " + vPlace(x) + "\n  Q:\n    type: O\n    properties:\n      a:\n        " + t + "\n"
	case 1:
		doc = "  O:\n    properties:\n      /^a/:\n        type: A\n        f: " + vPlace(x) + "\n  Q:\n    type: O\n    properties:\n      /^a/:\n        " + t + "\n"
	case 2:
		doc = "  O:\n    items:\n        type: A\n        f: " + vPlace(x) + "\n  Q:\n    type: O\n    items:\n        " + t + "\n"
	}
	vAssert(c09Valid("types:\n"+doc+B+A) == ok, "a library is rejected exactly when a custom facet is missing, unknown or of a wrong value")
}

// VH_C09_string: strings of every length.
func VH_C09_string() {
	t := gStr("s")
	vAssume(t.sane())
	v := ndAtom(9)
	decl := []string{"type: string", "minLength: " + vPlace(*t.nlo), "maxLength: " + vPlace(*t.nhi)}
	if ndBool("list") {
		decl = append([]string{"items:"}, "  type: string", "  minLength: "+vPlace(*t.nlo), "  maxLength: "+vPlace(*t.nhi), "default: ["+vPlace(v)+"]")
	} else {
		decl = append(decl, "examples:", "  e: {value: "+vPlace(v)+"}")
		vAssume(len(v) > 0 && v[0] != '{')
	}
	vAssert(c09Valid(vDecl(decl, []int{0, 2, 7}[ndChoice(3, "place")])) == t.ok(v), "a library is rejected exactly when an example or default does not match its type")
}

// VH_C09_facet_graph: definitions anywhere in a graph of parents C -> P, Q -> G, H.
func VH_C09_facet_graph() { c09Graph(3) }

func VH_C09_facet_graph_T() { c09Graph(5) }

func c09Graph(n int) {
	parents := map[string][]string{}
	sets := [][]string{nil, {"G"}, {"H", "G"}, {"G", "H"}, {"H"}}
	parents["P"] = sets[ndChoice(n, "of P")]
	parents["Q"] = sets[ndChoice(n, "of Q")]
	parents["C"] = [][]string{{"P", "Q"}, {"P"}, {"Q", "H"}, {"Q", "P"}, {"G", "Q"}}[ndChoice(n, "of C")]
	sites := []string{"P", "Q", "G", "H"}
	lo := map[string]int64{}
	i := ndChoice(4, "site")
	kind := []string{"string", "object", "integer", "array"}[i]
	lo[sites[i]] = ndInt("lo")
	if j := ndChoice(4, "second site"); j > i {
		lo[sites[j]] = ndInt("lo2")
	} else {
		vAssume(j == 0)
	}
	required := ndChoice(2, "required") == 1
	has, x := ndChoice(2, "value") == 1, ndInt("x")
	doc := "types:\n"
	ok := true
	for _, t := range []string{"C", "P", "Q", "G", "H"} {
		doc += "  " + t + ":\n"
		if len(parents[t]) == 0 {
			doc += "    type: " + kind + "\n"
		} else {
			doc += "    type: [" + strings.Join(parents[t], ", ") + "]\n"
		}
		if l, def := lo[t]; def {
			n := "f?"
			if required {
				n = "f"
			}
			doc += "    facets:\n      \"" + n + "\":\n        type: integer\n        minimum: " + vPlace(l) + "\n"
		}
		if t == "C" && has {
			doc += "    f: " + vPlace(x) + "\n"
		}
		above := map[string]bool{}
		next := append([]string{}, parents[t]...)
		for len(next) > 0 {
			p := next[0]
			next = append(next[1:], parents[p]...)
			above[p] = true
		}
		known := false
		for _, p := range sites {
			l, def := lo[p]
			if !above[p] || !def {
				continue
			}
			known = true
			if _, twice := lo[t]; twice {
				ok = false
			}
			if t == "C" && has {
				ok = vAnd(ok, x >= l)
			} else if required {
				ok = false
			}
		}
		if t == "C" && has && !known {
			ok = false
		}
	}
	vAssert(c09Valid(doc) == ok, "a library is rejected exactly when a custom facet is missing, unknown or of a wrong value")
}
