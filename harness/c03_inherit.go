package raml

//use: common.go
//bound: one, two or three levels of inheritance; the derivation happens at a named type, a property, an array item, a pattern property, an included data type or by multiple inheritance; every subset of the facets on both sides with symbolic values (int64 / uint64 / opaque strings), enums of up to 2 entries; unions of up to three members, two of one kind, overridden by or merged with such unions
//assume: pattern of a string overrides without comparison (documented), additionalProperties and discriminator are inherited as is (documented), multipleOf and format are not enforced at validation (documented)

import (
	"strings"
	"unicode/utf8"
)

var _ = vReg("VH_C03_integer", VH_C03_integer)
var _ = vReg("VH_C03_number", VH_C03_number)
var _ = vReg("VH_C03_string", VH_C03_string)
var _ = vReg("VH_C03_file", VH_C03_file)
var _ = vReg("VH_C03_enum", VH_C03_enum)
var _ = vReg("VH_C03_array", VH_C03_array)
var _ = vReg("VH_C03_unique", VH_C03_unique)
var _ = vReg("VH_C03_object_counts", VH_C03_object_counts)
var _ = vReg("VH_C03_required", VH_C03_required)
var _ = vReg("VH_C03_kinds", VH_C03_kinds)
var _ = vReg("VH_C03_chain", VH_C03_chain)
var _ = vReg("VH_C03_multiple", VH_C03_multiple)

// c03Ind indents facet lines ("" stays empty).
func c03Ind(n int, lines []string) string {
	s := ""
	for _, l := range lines {
		s += strings.Repeat(" ", n) + l + "\n"
	}
	return s
}

// c03Site derives type C from type P at one of several places. parent and child are facet
// lines; the result wraps a value of the derived type for validation.
func c03Site(kind string, pl, cl []string) (doc string, wrap func(v any) any) {
	id := func(v any) any { return v }
	sites := 6
	site := ndChoice(sites, "site")
	parent, child := c03Ind(8, pl), c03Ind(8, cl)
	head := "types:\n"
	switch site {
	case 0: // named types
		return head + "  P:\n        type: " + kind + "\n" + parent + "  C:\n        type: P\n" + child, id
	case 1: // declared before the parent, flow through an alias
		return head + "  C:\n        type: M\n" + child + "  M: P\n  P:\n        type: " + kind + "\n" + parent, id
	case 2: // property
		return head + "  O:\n    type: object\n    properties:\n      x:\n        type: " + kind + "\n" + parent +
				"  C:\n    type: O\n    properties:\n      x:\n        type: " + kind + "\n" + child,
			func(v any) any { return map[string]any{"x": v} }
	case 3: // array items
		return head + "  O:\n    type: array\n    items:\n        type: " + kind + "\n" + parent +
				"  C:\n    type: O\n    items:\n        type: " + kind + "\n" + child,
			func(v any) any { return []any{v} }
	case 4: // pattern property
		return head + "  O:\n    type: object\n    properties:\n      /^x/:\n        type: " + kind + "\n" + parent +
				"  C:\n    type: O\n    properties:\n      /^x/:\n        type: " + kind + "\n" + child,
			func(v any) any { return map[string]any{"xx": v} }
	}
	// an included data type
	vFile("p.raml", "#%RAML 1.0 DataType\ntype: "+kind+"\n"+c03Ind(0, pl))
	return head + "  C:\n        type: !include p.raml\n" + child, id
}

// c03Parse parses and unwraps a library with includes and returns type C.
func c03Parse(doc string) (*BaseShape, error) {
	r, err := ParseFromString("#%RAML 1.0 Library\n"+doc, "lib.raml", vDir(), OptWithUnwrap())
	if err != nil {
		return nil, err
	}
	return vGet(r, "C"), nil
}

func VH_C03_integer() {
	type fs struct {
		hasLo, hasHi bool
		lo, hi       int64
	}
	mk := func() ([]string, fs) {
		var f fs
		var s []string
		if f.hasLo = ndBool("hasMin"); f.hasLo {
			f.lo = ndInt("min")
			s = append(s, "minimum: "+vPlace(f.lo))
		}
		if f.hasHi = ndBool("hasMax"); f.hasHi {
			f.hi = ndInt("max")
			s = append(s, "maximum: "+vPlace(f.hi))
		}
		return s, f
	}
	ps, p := mk()
	cs, c := mk()
	doc, wrap := c03Site("integer", ps, cs)
	b, err := c03Parse(doc)
	widens := vOr(vAnd(p.hasLo, c.hasLo, c.lo < p.lo), vAnd(p.hasHi, c.hasHi, c.hi > p.hi))
	vAssert((err != nil) == widens, "deriving is rejected exactly when the child is wider than the parent")
	if err != nil {
		return
	}
	x := ndInt("x")
	want := vAnd(vOr(!p.hasLo, x >= p.lo), vOr(!p.hasHi, x <= p.hi), vOr(!c.hasLo, x >= c.lo), vOr(!c.hasHi, x <= c.hi))
	vAssert(vOK(b, wrap(x)) == want, "the derived type accepts exactly what parent and child facets accept")
}

func VH_C03_number() {
	doc := "types:\n  P:\n    type: number\n"
	pl, ph := ndFloat("pmin"), ndFloat("pmax")
	cl, ch := ndFloat("cmin"), ndFloat("cmax")
	fin := func(x float64) bool { return vAnd(x == x, x < 1e300, x > -1e300) }
	vAssume(vAnd(fin(pl), fin(ph), fin(cl), fin(ch)))
	hpl, hph, hcl, hch := ndBool("a"), ndBool("b"), ndBool("c"), ndBool("d")
	if hpl {
		doc += "    minimum: " + vPlace(pl) + "\n"
	}
	if hph {
		doc += "    maximum: " + vPlace(ph) + "\n"
	}
	doc += "  C:\n    type: P\n"
	if hcl {
		doc += "    minimum: " + vPlace(cl) + "\n"
	}
	if hch {
		doc += "    maximum: " + vPlace(ch) + "\n"
	}
	b, err := vUnwrapped(doc, "C")
	widens := vOr(vAnd(hpl, hcl, cl < pl), vAnd(hph, hch, ch > ph))
	vAssert((err != nil) == widens, "deriving is rejected exactly when the child is wider than the parent")
	if err != nil {
		return
	}
	x := ndFloat("x")
	vAssume(x == x)
	want := vAnd(vOr(!hpl, x >= pl), vOr(!hph, x <= ph), vOr(!hcl, x >= cl), vOr(!hch, x <= ch))
	vAssert(vOK(b, x) == want, "the derived type accepts exactly what parent and child facets accept")
}

// c03Counts checks a pair of lower/upper bounds given as unsigned counts.
func c03Counts(kind, lo, hi string, value func() (any, uint64)) {
	type fs struct {
		hasLo, hasHi bool
		lo, hi       uint64
	}
	mk := func() ([]string, fs) {
		var f fs
		var s []string
		if f.hasLo = ndBool("hasMin"); f.hasLo {
			f.lo = ndUint("min")
			s = append(s, lo+": "+vPlace(f.lo))
		}
		if f.hasHi = ndBool("hasMax"); f.hasHi {
			f.hi = ndUint("max")
			s = append(s, hi+": "+vPlace(f.hi))
		}
		return s, f
	}
	ps, p := mk()
	cs, c := mk()
	doc, wrap := c03Site(kind, ps, cs)
	b, err := c03Parse(doc)
	widens := vOr(vAnd(p.hasLo, c.hasLo, c.lo < p.lo), vAnd(p.hasHi, c.hasHi, c.hi > p.hi))
	vAssert((err != nil) == widens, "deriving is rejected exactly when the child is wider than the parent")
	if err != nil {
		return
	}
	x, n := value()
	want := vAnd(vOr(!p.hasLo, n >= p.lo), vOr(!p.hasHi, n <= p.hi), vOr(!c.hasLo, n >= c.lo), vOr(!c.hasHi, n <= c.hi))
	vAssert(vOK(b, wrap(x)) == want, "the derived type accepts exactly what parent and child facets accept")
}

func VH_C03_string() {
	c03Counts("string", "minLength", "maxLength", func() (any, uint64) {
		n := ndChoice(4, "len")
		return "abc"[:n], uint64(n)
	})
}

func VH_C03_file() {
	c03Counts("file", "minLength", "maxLength", func() (any, uint64) {
		n := ndChoice(4, "len")
		return "abc"[:n], uint64(n)
	})
}

func VH_C03_array() {
	c03Counts("array", "minItems", "maxItems", func() (any, uint64) {
		n := ndChoice(4, "len")
		v := make([]any, n)
		return v, uint64(n)
	})
}

func VH_C03_object_counts() {
	c03Counts("object", "minProperties", "maxProperties", func() (any, uint64) {
		n := ndChoice(4, "len")
		v := map[string]any{}
		for i := 0; i < n; i++ {
			v[[]string{"a", "b", "c"}[i]] = nil
		}
		return v, uint64(n)
	})
}

func VH_C03_enum() {
	kind := []string{"integer", "number", "string", "boolean"}[ndChoice(4, "kind")]
	// the enum entries of one side as values and the facet block
	mk := func() ([]string, []any) {
		n := ndChoice(3, "n")
		if n == 0 {
			return nil, nil
		}
		s := "enum: ["
		var vs []any
		for i := 0; i < n; i++ {
			if i > 0 {
				s += ", "
			}
			switch kind {
			case "integer", "number":
				x := ndInt("e")
				s += vPlace(x)
				vs = append(vs, x)
			case "string":
				x := ndAtom(6)
				s += vPlace(x)
				vs = append(vs, x)
			case "boolean":
				x := ndBool("e")
				s += vPlace(x)
				vs = append(vs, x)
			}
		}
		return []string{s + "]"}, vs
	}
	ps, p := mk()
	cs, c := mk()
	eq := func(a, b any) bool {
		switch x := a.(type) {
		case int64:
			return x == b.(int64)
		case string:
			return x == b.(string)
		}
		return a.(bool) == b.(bool)
	}
	in := func(v any, l []any) bool {
		r := false
		for _, e := range l {
			r = vOr(r, eq(v, e))
		}
		return r
	}
	doc, wrap := c03Site(kind, ps, cs)
	b, err := c03Parse(doc)
	widens := false
	if p != nil {
		for _, e := range c {
			widens = vOr(widens, !in(e, p))
		}
	}
	vAssert((err != nil) == widens, "deriving is rejected exactly when the child enum has a new value")
	if err != nil {
		return
	}
	var x any
	switch kind {
	case "string":
		x = ndAtom(6)
	case "boolean":
		x = ndBool("x")
	default:
		x = ndInt("x")
	}
	vAssert(vOK(b, wrap(x)) == vAnd(vOr(p == nil, in(x, p)), vOr(c == nil, in(x, c))), "the derived type accepts exactly the values both enums contain")
}

func VH_C03_unique() {
	val := func(k int) []string {
		if k == 0 {
			return nil
		}
		return []string{"uniqueItems: " + []string{"", "false", "true"}[k]}
	}
	p, c := ndChoice(3, "parent"), ndChoice(3, "child")
	doc, wrap := c03Site("array", val(p), val(c))
	b, err := c03Parse(doc)
	vAssert((err != nil) == (p == 2 && c == 1), "uniqueItems cannot be switched off")
	if err != nil {
		return
	}
	x, y := ndInt("x"), ndInt("y")
	vAssert(vOK(b, wrap([]any{x, y})) == vOr(p != 2 && c != 2, x != y), "uniqueItems is inherited")
}

// VH_C03_required: a required property stays required; properties of both sides are present.
func VH_C03_required() {
	pre, cre := ndChoice(3, "parent a"), ndChoice(3, "child a") // 0 absent, 1 optional, 2 required
	lo, hi := ndInt("lo"), ndInt("hi")
	decl := func(k int, s string) []string {
		switch k {
		case 1:
			return []string{"  a?:", "    type: integer", "    " + s}
		case 2:
			return []string{"  a:", "    type: integer", "    " + s}
		}
		return nil
	}
	ap := ndChoice(3, "parent additionalProperties")
	ca := ndChoice(3, "child additionalProperties")
	apt := func(k int) []string {
		if k == 0 {
			return nil
		}
		return []string{"additionalProperties: " + []string{"", "false", "true"}[k]}
	}
	parent := append(append(apt(ap), "properties:", "  p?: string"), decl(pre, "minimum: "+vPlace(lo))...)
	child := apt(ca)
	if cre > 0 {
		child = append(append(child, "properties:", "  c?: string"), decl(cre, "maximum: "+vPlace(hi))...)
	}
	doc, wrap := c03Site("object", parent, child)
	b, err := c03Parse(doc)
	vAssert((err != nil) == (pre == 2 && cre == 1), "a required property cannot be made optional")
	if err != nil {
		return
	}
	eff := ca
	if eff == 0 {
		eff = ap
	}
	v := map[string]any{}
	want := true
	if ndBool("has a") {
		x := ndInt("a")
		v["a"] = x
		want = vAnd(vOr(pre == 0, x >= lo), vOr(cre == 0, x <= hi), vOr(pre != 0, cre != 0, eff != 1))
	} else {
		want = vAnd(pre != 2, cre != 2)
	}
	switch ndChoice(4, "extra") {
	case 1:
		v["p"] = "s"
	case 2:
		v["p"] = true
		want = false
	case 3:
		v["z"] = int64(1)
		want = vAnd(want, eff != 1)
	}
	vAssert(vOK(b, wrap(v)) == want, "the derived object has the properties of parent and child")
}

// VH_C03_kinds: a child of an incompatible kind is rejected, of the same kind accepted.
func VH_C03_kinds() {
	kinds := []string{"string", "integer", "number", "boolean", "object", "array", "nil", "date-only", "time-only", "datetime-only", "datetime", "file", "any"}
	p, c := ndChoice(len(kinds), "parent"), ndChoice(len(kinds), "child")
	site := ndChoice(3, "site")
	var doc string
	switch site {
	case 0:
		doc = "types:\n  O:\n    type: object\n    properties:\n      x: " + kinds[p] + "\n  C:\n    type: O\n    properties:\n      x: " + kinds[c] + "\n"
	case 1:
		doc = "types:\n  O:\n    type: array\n    items: " + kinds[p] + "\n  C:\n    type: O\n    items: " + kinds[c] + "\n"
	case 2:
		doc = "types:\n  C:\n    type: [" + kinds[c] + ", " + kinds[p] + "]\n"
	}
	_, err := vUnwrapped(doc, "C")
	vAssert((err == nil) == (kinds[p] == kinds[c] || kinds[p] == "any"), "a child of another kind is rejected")
}

// VH_C03_chain: constraints accumulate over three levels whatever the declaration order.
func VH_C03_chain() {
	g, p, c := ndInt("g"), ndInt("p"), ndInt("c")
	hg, hp, hc := ndBool("hasG"), ndBool("hasP"), ndBool("hasC")
	line := func(h bool, x int64) string {
		if !h {
			return ""
		}
		return "    minimum: " + vPlace(x) + "\n"
	}
	G := "  G:\n    type: integer\n" + line(hg, g)
	P := "  P:\n    type: G\n    description: d\n" + line(hp, p)
	C := "  C:\n    type: P\n" + line(hc, c)
	doc := "types:\n"
	switch ndChoice(6, "order") {
	case 0:
		doc += G + P + C
	case 1:
		doc += G + C + P
	case 2:
		doc += P + G + C
	case 3:
		doc += P + C + G
	case 4:
		doc += C + G + P
	case 5:
		doc += C + P + G
	}
	b, err := vUnwrapped(doc, "C")
	widens := vOr(vAnd(hg, hp, p < g), vAnd(hp, hc, c < p), vAnd(hg, hc, c < g))
	vAssert((err != nil) == widens, "a chain is rejected exactly when one level is wider than an ancestor")
	if err != nil {
		return
	}
	x := ndInt("x")
	vAssert(vOK(b, x) == vAnd(vOr(!hg, x >= g), vOr(!hp, x >= p), vOr(!hc, x >= c)), "the last type of a chain keeps every ancestor's constraint")
}

// VH_C03_multiple: with several parents every parent's constraints hold.
func VH_C03_multiple() {
	a, b, c := ndInt("a"), ndInt("b"), ndInt("c")
	doc := "types:\n  A:\n    type: object\n    properties:\n      a:\n        type: integer\n        minimum: " + vPlace(a) +
		"\n  B:\n    type: object\n    properties:\n      b:\n        type: integer\n        maximum: " + vPlace(b) + "\n  C:\n    type: [A, B]\n"
	own := ndBool("own")
	if own {
		doc += "    properties:\n      c?:\n        type: integer\n        minimum: " + vPlace(c) + "\n"
	}
	s, err := vUnwrapped(doc, "C")
	vAssert(err == nil, "independent parents combine")
	v := map[string]any{}
	x, y, z := ndInt("x"), ndInt("y"), ndInt("z")
	want := true
	if ndBool("has a") {
		v["a"] = x
		want = vAnd(want, x >= a)
	} else {
		want = false
	}
	if ndBool("has b") {
		v["b"] = y
		want = vAnd(want, y <= b)
	} else {
		want = false
	}
	if ndBool("has c") {
		v["c"] = z
		want = vAnd(want, vOr(!own, z >= c))
	}
	vAssert(vOK(s, v) == want, "a type with two parents satisfies both")
}

var _ = vReg("VH_C03_union_source", VH_C03_union_source)
var _ = vReg("VH_C03_union_target", VH_C03_union_target)
var _ = vReg("VH_C03_union_union", VH_C03_union_union)

// c03U overrides the parent type expression pt by the child's facet lines at one of three places.
func c03U(pt string, cl []string) (string, func(any) any) {
	child := c03Ind(8, cl)
	switch ndChoice(3, "site") {
	case 0:
		return "  O:\n    type: object\n    properties:\n      x: " + pt + "\n  C:\n    type: O\n    properties:\n      x:\n" + child,
			func(v any) any { return map[string]any{"x": v} }
	case 1:
		return "  O:\n    type: array\n    items: " + pt + "\n  C:\n    type: O\n    items:\n" + child,
			func(v any) any { return []any{v} }
	}
	return "  O:\n    type: object\n    properties:\n      /^x/: " + pt + "\n  C:\n    type: O\n    properties:\n      /^x/:\n" + child,
		func(v any) any { return map[string]any{"xx": v} }
}

// VH_C03_union_source: a union narrowed to one of its members.
func VH_C03_union_source() {
	lo, hi, c := ndInt("lo"), ndInt("hi"), ndInt("c")
	hc := ndBool("has c")
	kind := []string{"integer", "string", "boolean"}[ndChoice(3, "kind")]
	two := ndBool("two integer members")
	types := "types:\n  A:\n    type: integer\n    minimum: " + vPlace(lo) + "\n  B:\n    type: integer\n    maximum: " + vPlace(hi) + "\n"
	pt := "A | string"
	if two {
		pt = "A | string | B"
	}
	cl := []string{"type: " + kind}
	if kind == "integer" && hc {
		cl = append(cl, "minimum: "+vPlace(c))
	} else {
		hc = false
	}
	sites, wrap := c03U(pt, cl)
	b, err := vUnwrapped(types+sites, "C")
	wide := vOr(kind == "boolean", vAnd(kind == "integer", hc, c < lo, !two))
	vAssert((err != nil) == wide, "narrowing a union is rejected exactly when no member is as wide as the child")
	if err != nil {
		return
	}
	x := ndInt("x")
	if kind == "string" {
		vAssert(!vOK(b, wrap(x)), "the other members are gone")
		vAssert(vOK(b, wrap("s")), "the chosen member stays")
		return
	}
	// the child with A's facets, when it can be A, or with B's
	asA := vAnd(vOr(!hc, c >= lo), x >= lo, vOr(!hc, x >= c))
	asB := vAnd(two, x <= hi, vOr(!hc, x >= c))
	vAssert(vOK(b, wrap(x)) == vOr(asA, asB), "the narrowed type accepts what the child and one member accept")
	vAssert(!vOK(b, wrap("s")), "the other members are gone")
}

// VH_C03_union_target: a non-union overridden by a union.
func VH_C03_union_target() {
	p, a, b := ndInt("p"), ndInt("a"), ndInt("b")
	hp, hb := ndBool("hasP"), ndBool("hasB")
	str := ndBool("string member")
	types := "types:\n  PT:\n    type: integer\n    description: d\n"
	if hp {
		types += "    minimum: " + vPlace(p) + "\n"
	}
	types += "  A:\n    type: integer\n    minimum: " + vPlace(a) + "\n  B:\n    type: integer\n    description: d\n"
	if hb {
		types += "    maximum: " + vPlace(b) + "\n"
	}
	ct := "A | B"
	if str {
		ct += " | string"
	}
	sites, wrap := c03U("PT", []string{"type: " + ct})
	s, err := vUnwrapped(types+sites, "C")
	vAssert((err != nil) == vOr(str, vAnd(hp, a < p)), "a union is accepted exactly when every member is within the overridden type")
	if err != nil {
		return
	}
	x := ndInt("x")
	vAssert(vOK(s, wrap(x)) == vAnd(vOr(!hp, x >= p), vOr(x >= a, !hb, x <= b)), "the members keep the constraints of the overridden type")
}

// VH_C03_union_union: a union overridden by a union.
func VH_C03_union_union() {
	p, a, n := ndInt("p"), ndInt("a"), ndUint("n")
	kinds := []string{"A | string", "string | A", "A | string | boolean", "A | boolean", "A"}
	k := ndChoice(len(kinds), "child")
	types := "types:\n  PA:\n    type: integer\n    minimum: " + vPlace(p) + "\n  PS:\n    type: string\n    maxLength: " + vPlace(n) + "\n" +
		"  A:\n    type: integer\n    minimum: " + vPlace(a) + "\n"
	sites, wrap := c03U("PA | PS", []string{"type: " + kinds[k]})
	s, err := vUnwrapped(types+sites, "C")
	if err != nil {
		vAssert(vOr(a < p, k >= 2), "a compatible union is accepted")
		return
	}
	vAssert(a >= p, "a union with a wider member is rejected")
	x := ndInt("x")
	vAssert(vOK(s, wrap(x)) == (x >= a), "the integer member keeps its constraint")
	t := ndAtom(6)
	if k != 3 && k != 4 {
		vAssert(vOK(s, wrap(t)) == (uint64(utf8.RuneCountInString(t)) <= n), "the string member gets the parent's constraint")
	}
	vAssert(!vOK(s, wrap(true)), "a member outside of the parent is not accepted")
}

var _ = vReg("VH_C03_union_several", VH_C03_union_several)

// VH_C03_union_several: a union overridden by (or merged with) a union, with several members of one kind on either side.
func VH_C03_union_several() {
	p, q, a, b := ndInt("p"), ndInt("q"), ndInt("a"), ndInt("b")
	pts := []string{"PA | PS", "PA | PB | PS", "PB | PS | PA"}
	cts := []string{"A | B | string", "string | B | A", "A | string", "B | A | string"}
	pk, ck := ndChoice(len(pts), "parent"), ndChoice(len(cts), "child")
	types := "types:\n  PA:\n    type: integer\n    minimum: " + vPlace(p) + "\n  PB:\n    type: integer\n    maximum: " + vPlace(q) + "\n  PS: string\n" +
		"  A:\n    type: integer\n    minimum: " + vPlace(a) + "\n  B:\n    type: integer\n    maximum: " + vPlace(b) + "\n"
	var wrap func(any) any
	if ndChoice(2, "multiple") == 1 {
		types += "  U: " + cts[ck] + "\n  V: " + pts[pk] + "\n  C:\n    type: [U, V]\n"
		wrap = func(v any) any { return v }
	} else {
		var sites string
		sites, wrap = c03U(pts[pk], []string{"type: " + cts[ck]})
		types += sites
	}
	s, err := vUnwrapped(types, "C")
	twoP, twoC := pk > 0, ck != 2
	full := vAnd(a >= p, vOr(!twoP, !twoC, b <= q))
	if err != nil {
		vAssert(!full, "a union whose members are all within the parent's is accepted")
		return
	}
	x := ndInt("x")
	both := vAnd(vOr(x >= p, vAnd(twoP, x <= q)), vOr(x >= a, vAnd(twoC, x <= b)))
	got := vOK(s, wrap(x))
	vAssert(vOr(!got, both), "nothing is accepted that the parent or the child does not accept")
	vAssert(vOr(!full, got == both), "everything is accepted that a member of each accepts")
	vAssert(vOK(s, wrap("s")), "members of other kinds stay")
	vAssert(!vOK(s, wrap(true)), "members of other kinds are not added")
}
