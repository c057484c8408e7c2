package raml

//use: common.go
//bound: every kind of type with every subset of its facets on the parent and on the child (numeric facets symbolic over their full range, compatible by construction), six derivation sites (named type, through an alias, property, item, pattern property, included data type) plus two levels and two parents; custom facets with symbolic values
//assume: displayName, default, examples and annotations belong to the type that declares them (they are not inherited by the library); the property only requires that a child's own ones are kept

import "strings"

var _ = vReg("VH_C04_integer", VH_C04_integer)
var _ = vReg("VH_C04_number", VH_C04_number)
var _ = vReg("VH_C04_string", VH_C04_string)
var _ = vReg("VH_C04_array", VH_C04_array)
var _ = vReg("VH_C04_object", VH_C04_object)
var _ = vReg("VH_C04_dates", VH_C04_dates)
var _ = vReg("VH_C04_boolean_file", VH_C04_boolean_file)
var _ = vReg("VH_C04_description", VH_C04_description)
var _ = vReg("VH_C04_custom_facets", VH_C04_custom_facets)
var _ = vReg("VH_C04_chain", VH_C04_chain)
var _ = vReg("VH_C04_parents", VH_C04_parents)
var _ = vReg("VH_C04_own_metadata", VH_C04_own_metadata)

// c04Inner finds the derived shape inside of what c03Site built.
func c04Inner(b *BaseShape, site int) *BaseShape {
	switch t := b.Shape.(type) {
	case *ArrayShape:
		if site == 3 {
			return t.Items
		}
	case *ObjectShape:
		if t.Properties != nil {
			if p, ok := t.Properties.Get("x"); ok {
				return p.Base
			}
		}
		if t.PatternProperties != nil {
			if p, ok := t.PatternProperties.Get("/^x/"); ok {
				return p.Base
			}
		}
	}
	return b
}

type c04F struct {
	name   string
	pt, ct string // YAML text on the parent and on the child
	pv, cv any    // what is expected
}

// c04Run declares every subset of the facets on both sides and checks the result.
func c04Run(kind string, fs []c04F) {
	var pl, cl []string
	want := make([]any, len(fs))
	for i, f := range fs {
		in := ndChoice(4, f.name)
		if in&1 != 0 {
			pl = append(pl, f.name+": "+f.pt)
			want[i] = f.pv
		}
		if in&2 != 0 {
			cl = append(cl, f.name+": "+f.ct)
			want[i] = f.cv
		}
	}
	if len(pl) == 0 {
		pl = append(pl, "displayName: p")
	}
	if len(cl) == 0 {
		cl = append(cl, "displayName: c")
	}
	doc, site := c04Site(kind, pl, cl)
	b, err := c04Parse(doc)
	vAssert(err == nil, "a compatible child is accepted")
	in := c04Inner(b, site)
	vAssert(in.Type == kind, "the derived type keeps the kind of its parent")
	for i, f := range fs {
		vAssert(vFacet(in, f.name) == want[i], f.name+": the child's own facet stays and a missing one comes from the parent")
	}
}

// c04Site and c04Parse are those of the inheritance property, with five sites.
func c04Site(kind string, pl, cl []string) (string, int) {
	ind := func(n int, lines []string) string {
		s := ""
		for _, l := range lines {
			s += strings.Repeat(" ", n) + l + "\n"
		}
		return s
	}
	parent, child := ind(8, pl), ind(8, cl)
	site := ndChoice(6, "site")
	switch site {
	case 0:
		return "types:\n  P:\n        type: " + kind + "\n" + parent + "  C:\n        type: P\n" + child, site
	case 1:
		return "types:\n  C:\n        type: M\n" + child + "  M: P\n  P:\n        type: " + kind + "\n" + parent, site
	case 2:
		return "types:\n  O:\n    type: object\n    properties:\n      x:\n        type: " + kind + "\n" + parent +
			"  C:\n    type: O\n    properties:\n      x:\n        type: " + kind + "\n" + child, site
	case 3:
		return "types:\n  C:\n    type: O\n    items:\n        type: " + kind + "\n" + child +
			"  O:\n    type: array\n    items:\n        type: " + kind + "\n" + parent, site
	case 4:
		return "types:\n  O:\n    type: object\n    properties:\n      /^x/:\n        type: " + kind + "\n" + parent +
			"  C:\n    type: O\n    properties:\n      /^x/:\n        type: " + kind + "\n" + child, site
	}
	vFile("p.raml", "#%RAML 1.0 DataType\ntype: "+kind+"\n"+ind(0, pl))
	return "types:\n  C:\n        type: !include p.raml\n" + child, site
}

func c04Parse(doc string) (*BaseShape, error) {
	r, err := ParseFromString("#%RAML 1.0 Library\n"+doc, "lib.raml", vDir(), OptWithUnwrap())
	if err != nil {
		return nil, err
	}
	return vGet(r, "C"), nil
}

func VH_C04_integer() {
	p, c, q, d := ndInt("pmin"), ndInt("cmin"), ndInt("pmax"), ndInt("cmax")
	vAssume(vAnd(c >= p, d <= q))
	c04Run("integer", []c04F{
		{"minimum", vPlace(p), vPlace(c), p, c},
		{"maximum", vPlace(q), vPlace(d), q, d},
		{"multipleOf", "3", "6", 3.0, 6.0},
		{"format", "int32", "int", "int32", "int"},
	})
}

func VH_C04_number() {
	c04Run("number", []c04F{
		{"minimum", "-1.5", "2", -1.5, 2.0},
		{"maximum", "1e3", "10.25", 1e3, 10.25},
		{"multipleOf", "0.5", "1.5", 0.5, 1.5},
		{"format", "float", "float", "float", "float"},
		{"enum", "[3, 4, 5]", "[5, 3]", "3,4,5", "5,3"},
	})
}

func VH_C04_string() {
	p, c, q, d := ndUint("pmin"), ndUint("cmin"), ndUint("pmax"), ndUint("cmax")
	vAssume(vAnd(c >= p, d <= q))
	c04Run("string", []c04F{
		{"minLength", vPlace(p), vPlace(c), p, c},
		{"maxLength", vPlace(q), vPlace(d), q, d},
		{"pattern", "^a", "^ab", "^a", "^ab"},
		{"enum", "[a, b, c]", "[c, a]", "a,b,c", "c,a"},
	})
}

func VH_C04_array() {
	p, c, q, d := ndUint("pmin"), ndUint("cmin"), ndUint("pmax"), ndUint("cmax")
	vAssume(vAnd(c >= p, d <= q))
	c04Run("array", []c04F{
		{"minItems", vPlace(p), vPlace(c), p, c},
		{"maxItems", vPlace(q), vPlace(d), q, d},
		{"uniqueItems", "false", "true", false, true},
		{"items", "string", "string", "string", "string"},
	})
}

func VH_C04_object() {
	p, c, q, d := ndUint("pmin"), ndUint("cmin"), ndUint("pmax"), ndUint("cmax")
	vAssume(vAnd(c >= p, d <= q))
	switch ndChoice(2, "facets") {
	case 0:
		c04Run("object", []c04F{
			{"minProperties", vPlace(p), vPlace(c), p, c},
			{"maxProperties", vPlace(q), vPlace(d), q, d},
			{"additionalProperties", "true", "false", true, false},
			{"discriminator", "a", "b", "a", "b"},
		})
	case 1:
		// properties merge: the child's come first, then those only the parent has
		pp, cp := ndChoice(5, "parent properties"), ndChoice(5, "child properties")
		decl := []string{"", "{a: string}", "{\"a?\": string, b: integer}", "{b: integer, /^q/: string}", "{/^q/: string, /^r/: number}"}
		has := []string{"", "a:string", "a?:string,b:integer", "b:integer,/^q/:string", "/^q/:string,/^r/:number"}
		vAssume(!(pp == 1 && cp == 2)) // a required property must stay required
		pl, cl := []string{"displayName: p"}, []string{"displayName: c"}
		if pp > 0 {
			pl = append(pl, "properties: "+decl[pp])
		}
		if cp > 0 {
			cl = append(cl, "properties: "+decl[cp])
		}
		doc, site := c04Site("object", pl, cl)
		b, err := c04Parse(doc)
		vAssert(err == nil, "a compatible child is accepted")
		got := vFacet(c04Inner(b, site), "properties").(string)
		n := 0
		for _, w := range strings.Split(has[cp], ",") {
			if w != "" {
				n++
				vAssert(strings.Contains(","+got+",", ","+w+","), "the child keeps its own properties")
			}
		}
		for _, w := range strings.Split(has[pp], ",") {
			k := strings.TrimSuffix(strings.Split(w, ":")[0], "?")
			if w == "" || strings.Contains(","+has[cp], ","+k+":") || strings.Contains(","+has[cp], ","+k+"?:") {
				continue
			}
			n++
			vAssert(strings.Contains(","+got+",", ","+w+","), "the child gets the parent's other properties")
		}
		if got == "" {
			vAssert(n == 0, "no property is lost")
		} else {
			vAssert(len(strings.Split(got, ",")) == n, "no property appears from nowhere")
		}
	}
}

func VH_C04_dates() {
	c04Run("datetime", []c04F{{"format", "rfc2616", "rfc2616", "rfc2616", "rfc2616"}, {"description", "p", "c", "p", "c"}})
}

func VH_C04_boolean_file() {
	switch ndChoice(2, "kind") {
	case 0:
		c04Run("boolean", []c04F{{"enum", "[true, false]", "[false]", "true,false", "false"}, {"description", "p", "c", "p", "c"}})
	case 1:
		p, c, q, d := ndUint("pmin"), ndUint("cmin"), ndUint("pmax"), ndUint("cmax")
		vAssume(vAnd(c >= p, d <= q))
		c04Run("file", []c04F{
			{"minLength", vPlace(p), vPlace(c), p, c},
			{"maxLength", vPlace(q), vPlace(d), q, d},
			{"fileTypes", "[image/png, text/plain]", "[text/plain]", "image/png,text/plain", "text/plain"},
		})
	}
}

// VH_C04_description: the description of every kind of type.
func VH_C04_description() {
	kinds := []string{"any", "nil", "string", "integer", "number", "boolean", "object", "array", "file", "date-only", "time-only", "datetime-only", "datetime"}
	c04Run(kinds[ndChoice(len(kinds), "kind")], []c04F{{"description", "p", "c", "p", "c"}})
}

func c04Custom(b *BaseShape, name string) any {
	n, ok := b.CustomShapeFacets.Get(name)
	if !ok {
		return nil
	}
	if i, ok := n.Value.(int); ok {
		return int64(i)
	}
	return n.Value
}

// VH_C04_custom_facets: values of user-defined facets.
func VH_C04_custom_facets() {
	kinds := []string{"any", "string", "integer", "object", "array", "boolean", "datetime", "file", "nil", "number", "date-only"}
	kind := kinds[ndChoice(len(kinds), "kind")]
	p, c := ndInt("p"), ndInt("c")
	inF, inG := ndChoice(4, "f"), ndChoice(4, "g")
	doc := "types:\n  D:\n    type: " + kind + "\n    facets:\n      f?: integer\n      g?: string\n"
	P, C := "  P:\n    type: D\n", "  C:\n    type: P\n    displayName: c\n"
	var wf, wg any
	if inF&1 != 0 {
		P += "    f: " + vPlace(p) + "\n"
		wf = p
	}
	if inG&1 != 0 {
		P += "    g: s\n"
		wg = "s"
	}
	if inF == 0 || inG == 0 {
		P += "    displayName: p\n"
	}
	if inF&2 != 0 {
		C += "    f: " + vPlace(c) + "\n"
		wf = c
	}
	if inG&2 != 0 {
		C += "    g: t\n"
		wg = "t"
	}
	if ndBool("child first") {
		doc += C + P
	} else {
		doc += P + C
	}
	b, err := c04Parse(doc)
	vAssert(err == nil, "custom facets are accepted")
	vAssert(c04Custom(b, "f") == wf, "the child's own custom facet stays and a missing one comes from the parent")
	vAssert(c04Custom(b, "g") == wg, "each custom facet is inherited on its own")
}

// VH_C04_chain: facets come from the nearest ancestor that declares them.
func VH_C04_chain() {
	g, p, c := ndInt("g"), ndInt("p"), ndInt("c")
	vAssume(vAnd(p >= g, c >= p))
	var want any
	line := func(n string, who int, x int64) string {
		s := ""
		k := ndChoice(2, n)
		if k == 1 {
			s = "    minimum: " + vPlace(x) + "\n"
			want = x
		}
		return s
	}
	G := "  G:\n    type: integer\n    maximum: 9223372036854775807\n    format: int64\n    description: g\n" + line("g", 0, g)
	P := "  P:\n    type: G\n    displayName: p\n" + line("p", 1, p)
	C := "  C:\n    type: P\n    displayName: c\n" + line("c", 2, c)
	b, err := c04Parse("types:\n" + []string{G + P + C, C + P + G, P + C + G}[ndChoice(3, "order")])
	vAssert(err == nil, "a narrowing chain is accepted")
	vAssert(vFacet(b, "minimum") == want, "a facet comes from the nearest ancestor that declares it")
	vAssert(vFacet(b, "maximum") == int64(9223372036854775807), "a facet of the grandparent arrives")
	vAssert(vFacet(b, "format") == "int64", "the format of the grandparent arrives")
	vAssert(vFacet(b, "description") == "g", "the description of the grandparent arrives")
}

// VH_C04_parents: with several parents the facets of all of them arrive.
func VH_C04_parents() {
	n := 2 + ndChoice(2, "third parent")
	x, y, z := ndUint("x"), ndUint("y"), ndUint("z")
	own := ndBool("own facet")
	decl := []string{"  A:\n    type: string\n    minLength: " + vPlace(x) + "\n", "  B:\n    type: string\n    maxLength: " + vPlace(y) + "\n",
		"  D:\n    type: string\n    pattern: ^a\n    description: d\n"}
	doc := "types:\n"
	C := "  C:\n    type: [" + []string{"A, B", "A, B, D"}[n-2] + "]\n"
	if ndBool("other order") {
		C = "  C:\n    type: [" + []string{"B, A", "D, A, B"}[n-2] + "]\n"
	}
	if own {
		C += "    minLength: " + vPlace(z) + "\n"
		vAssume(z >= x)
	}
	if ndBool("declared first") {
		doc += C + decl[2] + decl[1] + decl[0]
	} else {
		doc += decl[0] + decl[1] + decl[2] + C
	}
	b, err := c04Parse(doc)
	vAssert(err == nil, "compatible parents combine")
	if own {
		vAssert(vFacet(b, "minLength") == z, "the own facet stays")
	} else {
		vAssert(vFacet(b, "minLength") == x, "the first parent's facet arrives")
	}
	vAssert(vFacet(b, "maxLength") == y, "the second parent's facet arrives")
	if n == 3 {
		vAssert(vFacet(b, "pattern") == "^a", "the third parent's facet arrives")
		vAssert(vFacet(b, "description") == "d", "the third parent's description arrives")
	} else {
		vAssert(vFacet(b, "pattern") == nil, "no facet appears from nowhere")
	}
}

// VH_C04_own_metadata: displayName, default, example and annotations of a child are its own.
func VH_C04_own_metadata() {
	p, c := ndInt("p"), ndInt("c")
	// which of the two types declares each item
	dn, df, ex, an, rq := ndChoice(4, "displayName"), ndChoice(4, "default"), ndChoice(4, "example"), ndChoice(2, "annotation"), ndChoice(2, "required")
	pl := "    description: p\n"
	cl := "    description: c\n"
	if dn&1 != 0 {
		pl += "    displayName: pd\n"
	}
	if dn&2 != 0 {
		cl += "    displayName: cd\n"
	}
	if df&1 != 0 {
		pl += "    default: " + vPlace(p) + "\n"
	}
	if df&2 != 0 {
		cl += "    default: " + vPlace(c) + "\n"
	}
	if ex&1 != 0 {
		pl += "    example: " + vPlace(p) + "\n"
	}
	if ex&2 != 0 {
		cl += "    example: " + vPlace(c) + "\n"
	}
	if an&1 != 0 {
		cl += "    (an): " + vPlace(c) + "\n"
	}
	if rq&1 != 0 {
		cl += "    required: false\n"
	}
	b, err := c04Parse("annotationTypes:\n  an: integer\ntypes:\n  P:\n    type: integer\n" + pl + "  C:\n    type: P\n" + cl)
	vAssert(err == nil, "the library is well formed")
	if dn&2 != 0 {
		vAssert(b.DisplayName != nil && *b.DisplayName == "cd", "the child keeps its own displayName")
	}
	if df&2 != 0 {
		vAssert(b.Default != nil && b.Default.Value == any(int(c)), "the child keeps its own default")
	}
	if ex&2 != 0 {
		vAssert(b.Example != nil && b.Example.Data.Value == any(int(c)), "the child keeps its own example")
	}
	if an&1 != 0 {
		e, ok := b.CustomDomainProperties.Get("an")
		vAssert(ok && e.Extension.Value == any(int(c)), "the child keeps its own annotation")
	}
	if rq&1 != 0 {
		vAssert(b.Required != nil && !*b.Required, "the child keeps its own required facet")
	}
	vAssert(*b.Description == "c", "the child keeps its own description")
}
