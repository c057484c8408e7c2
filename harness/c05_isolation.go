package raml

//use: common.go
//bound: 21 base types (with every kind of facet, metadata and nesting) each with every one of 30 uses (thorough: two uses) in any order: the base is what it is without the use; up to four interrelated types in one library, every declaration order (up to 4!), derivations by property override, item override, pattern property, alias, union narrowing, `any` parents and two parents; symbolic facet values and instance values over int64

import "strings"

var _ = vReg("VH_C05_uses", VH_C05_uses)
var _ = vReg("VH_C05_uses_T", VH_C05_uses_T)
var _ = vReg("VH_C05_two_parents", VH_C05_two_parents)
var _ = vReg("VH_C05_two_parents_scalar", VH_C05_two_parents_scalar)
var _ = vReg("VH_C05_siblings", VH_C05_siblings)
var _ = vReg("VH_C05_override_with_named", VH_C05_override_with_named)
var _ = vReg("VH_C05_override_scalar_alias", VH_C05_override_scalar_alias)
var _ = vReg("VH_C05_items_with_named", VH_C05_items_with_named)
var _ = vReg("VH_C05_union_member", VH_C05_union_member)
var _ = vReg("VH_C05_union_siblings", VH_C05_union_siblings)
var _ = vReg("VH_C05_any_parent", VH_C05_any_parent)
var _ = vReg("VH_C05_alias_then_derive", VH_C05_alias_then_derive)
var _ = vReg("VH_C05_grandchild", VH_C05_grandchild)
var _ = vReg("VH_C05_inherited_maps", VH_C05_inherited_maps)

// vPerm joins declarations in one of all orders.
func vPerm(name string, decls ...string) string {
	rest := append([]string{}, decls...)
	var out []string
	for len(rest) > 0 {
		i := ndChoice(len(rest), name)
		out = append(out, rest[i])
		rest = append(append([]string{}, rest[:i]...), rest[i+1:]...)
	}
	return strings.Join(out, "")
}

func c05Lib(doc string) *RAML {
	r, err := vLib("types:\n"+doc, OptWithUnwrap())
	vAssert(err == nil, "the library is well formed")
	return r
}

func c05Obj(kv ...any) map[string]any {
	m := map[string]any{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	return m
}

func VH_C05_two_parents() {
	a, b, c := ndInt("a"), ndInt("b"), ndInt("c")
	own := ndBool("own properties")
	C := "  C:\n    type: [A, B]\n"
	if own {
		C += "    properties:\n      c:\n        type: integer\n        minimum: " + vPlace(c) + "\n"
	}
	r := c05Lib(vPerm("order",
		"  A:\n    type: object\n    properties:\n      a:\n        type: integer\n        minimum: "+vPlace(a)+"\n",
		"  B:\n    type: object\n    properties:\n      b:\n        type: integer\n        maximum: "+vPlace(b)+"\n",
		C))
	x := ndInt("x")
	vAssert(vOK(vGet(r, "A"), c05Obj("a", x)) == (x >= a), "a parent keeps exactly its own constraints")
	vAssert(vOK(vGet(r, "A"), c05Obj("a", x, "b", "free", "c", true)) == (x >= a), "a parent does not gain properties")
	vAssert(vOK(vGet(r, "B"), c05Obj("b", x)) == (x <= b), "the other parent keeps exactly its own constraints")
	vAssert(vOK(vGet(r, "B"), c05Obj("b", x, "a", "free", "c", true)) == (x <= b), "the other parent does not gain properties")
	vAssert(!vOK(vGet(r, "C"), c05Obj("a", a)), "the child has both parents' properties")
}

func VH_C05_two_parents_scalar() {
	a, b := ndInt("a"), ndInt("b")
	r, err := vLib("types:\n"+vPerm("order",
		"  A:\n    type: integer\n    minimum: "+vPlace(a)+"\n",
		"  B:\n    type: integer\n    maximum: "+vPlace(b)+"\n",
		"  C:\n    type: [A, B]\n",
		"  D:\n    type: [B, A]\n    description: d\n"), OptWithUnwrap())
	vAssert(err == nil, "the library is well formed")
	x := ndInt("x")
	vAssert(vOK(vGet(r, "A"), x) == (x >= a), "the first parent is unchanged")
	vAssert(vOK(vGet(r, "B"), x) == (x <= b), "the second parent is unchanged")
	vAssert(vOK(vGet(r, "C"), x) == vAnd(x >= a, x <= b), "the child has both constraints")
	vAssert(vOK(vGet(r, "D"), x) == vAnd(x >= a, x <= b), "the other child has both constraints")
}

func VH_C05_siblings() {
	p, c, d := ndInt("p"), ndInt("c"), ndInt("d")
	vAssume(vAnd(c >= p, d >= p))
	r := c05Lib(vPerm("order",
		"  P:\n    type: object\n    properties:\n      x:\n        type: integer\n        minimum: "+vPlace(p)+"\n",
		"  C:\n    type: P\n    properties:\n      x:\n        type: integer\n        minimum: "+vPlace(c)+"\n      y?: string\n",
		"  D:\n    type: P\n    properties:\n      x:\n        type: integer\n        maximum: "+vPlace(d)+"\n      z?: string\n",
		"  E:\n    type: P\n    minProperties: 2\n"))
	x := ndInt("x")
	vAssert(vOK(vGet(r, "P"), c05Obj("x", x)) == (x >= p), "the parent is unchanged by its children")
	vAssert(vOK(vGet(r, "P"), c05Obj("x", x, "y", true, "z", true)) == (x >= p), "the parent does not gain properties")
	vAssert(vOK(vGet(r, "C"), c05Obj("x", x, "z", true)) == (x >= c), "a child is unchanged by its siblings")
	vAssert(vOK(vGet(r, "D"), c05Obj("x", x, "y", true)) == vAnd(x >= p, x <= d), "a child is unchanged by its siblings")
	vAssert(!vOK(vGet(r, "E"), c05Obj("x", p)), "facets of a child apply to it")
	vAssert(vOK(vGet(r, "E"), c05Obj("x", x, "y", true)) == (x >= p), "a child is unchanged by its siblings")
}

// VH_C05_override_with_named: a property of type T1 is overridden with the named type T2.
func VH_C05_override_with_named() {
	a, b := ndInt("a"), ndInt("b")
	kind := ndChoice(2, "kind")
	P, C := "  P:\n    type: object\n    properties:\n      p: T1\n", "  C:\n    type: P\n    properties:\n      p: T2\n"
	wrap := func(v any) any { return c05Obj("p", v) }
	if kind == 1 {
		P, C = "  P:\n    type: object\n    properties:\n      /^x/: T1\n", "  C:\n    type: P\n    properties:\n      /^x/: T2\n"
		wrap = func(v any) any { return c05Obj("xx", v) }
	}
	r := c05Lib(vPerm("order",
		"  T1:\n    type: object\n    properties:\n      a:\n        type: integer\n        minimum: "+vPlace(a)+"\n",
		"  T2:\n    type: object\n    properties:\n      b:\n        type: integer\n        maximum: "+vPlace(b)+"\n",
		P, C))
	x := ndInt("x")
	vAssert(vOK(vGet(r, "T1"), c05Obj("a", x, "b", true)) == (x >= a), "the overridden type is unchanged")
	vAssert(vOK(vGet(r, "T2"), c05Obj("b", x, "a", true)) == (x <= b), "the overriding type is unchanged")
	vAssert(vOK(vGet(r, "T2"), c05Obj("b", x)) == (x <= b), "the overriding type does not gain properties")
	vAssert(vOK(vGet(r, "P"), wrap(c05Obj("a", x, "b", true))) == (x >= a), "the parent is unchanged")
	y := ndInt("y")
	vAssert(vOK(vGet(r, "C"), wrap(c05Obj("a", x, "b", y))) == vAnd(x >= a, y <= b), "the child has both constraints")
}

func VH_C05_override_scalar_alias() {
	a, b := ndInt("a"), ndInt("b")
	r := c05Lib(vPerm("order",
		"  I1:\n    type: integer\n    minimum: "+vPlace(a)+"\n",
		"  I2:\n    type: integer\n    maximum: "+vPlace(b)+"\n",
		"  P:\n    type: object\n    properties:\n      p: I1\n",
		"  C:\n    type: P\n    properties:\n      p: I2\n"))
	x := ndInt("x")
	vAssert(vOK(vGet(r, "I1"), x) == (x >= a), "the overridden type is unchanged")
	vAssert(vOK(vGet(r, "I2"), x) == (x <= b), "the overriding type is unchanged")
	vAssert(vOK(vGet(r, "P"), c05Obj("p", x)) == (x >= a), "the parent is unchanged")
	vAssert(vOK(vGet(r, "C"), c05Obj("p", x)) == vAnd(x >= a, x <= b), "the child has both constraints")
}

func VH_C05_items_with_named() {
	a, b := ndInt("a"), ndInt("b")
	r := c05Lib(vPerm("order",
		"  T1:\n    type: object\n    properties:\n      a:\n        type: integer\n        minimum: "+vPlace(a)+"\n",
		"  T2:\n    type: object\n    properties:\n      b:\n        type: integer\n        maximum: "+vPlace(b)+"\n",
		"  P: T1[]\n",
		"  C:\n    type: P\n    items: T2\n"))
	x := ndInt("x")
	vAssert(vOK(vGet(r, "T1"), c05Obj("a", x, "b", true)) == (x >= a), "the parent's item type is unchanged")
	vAssert(vOK(vGet(r, "T2"), c05Obj("b", x, "a", true)) == (x <= b), "the child's item type is unchanged")
	vAssert(vOK(vGet(r, "T2"), c05Obj("b", x)) == (x <= b), "the child's item type does not gain properties")
	y := ndInt("y")
	vAssert(vOK(vGet(r, "C"), []any{c05Obj("a", x, "b", y)}) == vAnd(x >= a, y <= b), "the child array has both constraints")
	vAssert(vOK(vGet(r, "P"), []any{c05Obj("a", x)}) == (x >= a), "the parent array is unchanged")
}

// VH_C05_union_member: narrowing a union-typed property to one member keeps the member's constraints.
func VH_C05_union_member() {
	lo, hi := ndInt("lo"), ndInt("hi")
	site := ndChoice(3, "site")
	P := []string{"  P:\n    type: object\n    properties:\n      x: U\n", "  P:\n    type: array\n    items: U\n", "  P:\n    type: object\n    properties:\n      /^x/: U\n"}[site]
	C := []string{"  C:\n    type: P\n    properties:\n      x:\n        type: integer\n", "  C:\n    type: P\n    items:\n        type: integer\n", "  C:\n    type: P\n    properties:\n      /^x/:\n        type: integer\n"}[site]
	C += "        maximum: " + vPlace(hi) + "\n"
	r := c05Lib(vPerm("order", "  U: I | string\n", "  I:\n    type: integer\n    minimum: "+vPlace(lo)+"\n", P, C))
	wrap := func(v any) any {
		switch site {
		case 0:
			return c05Obj("x", v)
		case 1:
			return []any{v}
		}
		return c05Obj("xx", v)
	}
	x := ndInt("x")
	vAssert(vOK(vGet(r, "U"), x) == (x >= lo), "the union is unchanged")
	vAssert(vOK(vGet(r, "P"), wrap(x)) == (x >= lo), "the parent is unchanged")
	vAssert(vOK(vGet(r, "P"), wrap("s")), "the parent keeps the other member")
	vAssert(!vOK(vGet(r, "C"), wrap("s")), "the child lost the other member")
	vAssert(vOK(vGet(r, "C"), wrap(x)) == vAnd(x >= lo, x <= hi), "the narrowed child keeps the member's constraint")
}

// VH_C05_union_siblings: a second child is checked against the union like the first one.
func VH_C05_union_siblings() {
	lo, c, d := ndInt("lo"), ndInt("c"), ndInt("d")
	dc := func(n string, m int64) string {
		return "  " + n + ":\n    type: P\n    properties:\n      x:\n        type: integer\n        minimum: " + vPlace(m) + "\n"
	}
	r, err := vLib("types:\n"+vPerm("order",
		"  P:\n    type: object\n    properties:\n      x: I | string\n",
		"  I:\n    type: integer\n    minimum: "+vPlace(lo)+"\n", dc("C", c), dc("D", d)), OptWithUnwrap())
	vAssert((err != nil) == vOr(c < lo, d < lo), "each sibling is compared with the union on its own")
	if err != nil {
		return
	}
	x := ndInt("x")
	vAssert(vOK(vGet(r, "C"), c05Obj("x", x)) == (x >= c), "the first child has its own constraint")
	vAssert(vOK(vGet(r, "D"), c05Obj("x", x)) == (x >= d), "the second child has its own constraint")
}

func VH_C05_any_parent() {
	c, d := ndInt("c"), ndInt("d")
	r := c05Lib(vPerm("order",
		"  P:\n    type: object\n    properties:\n      x: any\n",
		"  C:\n    type: P\n    properties:\n      x:\n        type: integer\n        minimum: "+vPlace(c)+"\n",
		"  D:\n    type: P\n    properties:\n      x:\n        type: integer\n        minimum: "+vPlace(d)+"\n"))
	x := ndInt("x")
	vAssert(vOK(vGet(r, "P"), c05Obj("x", "s")), "the parent is unchanged")
	vAssert(vOK(vGet(r, "C"), c05Obj("x", x)) == (x >= c), "the first child has its own constraint")
	vAssert(vOK(vGet(r, "D"), c05Obj("x", x)) == (x >= d), "the second child has its own constraint")
	r = c05Lib("  A: any\n  B:\n    type: A\n    description: b\n  C:\n    type: A\n    description: c\n")
	vAssert(*vGet(r, "B").Description == "b", "the first child keeps its description")
	vAssert(*vGet(r, "C").Description == "c", "the second child keeps its description")
	vAssert(vGet(r, "A").Description == nil, "the parent has no description")
}

func VH_C05_alias_then_derive() {
	a, c := ndInt("a"), ndInt("c")
	vAssume(c >= a)
	r := c05Lib(vPerm("order",
		"  A:\n    type: object\n    properties:\n      a:\n        type: integer\n        minimum: "+vPlace(a)+"\n",
		"  B: A\n",
		"  C:\n    type: B\n    properties:\n      a:\n        type: integer\n        minimum: "+vPlace(c)+"\n      c: string\n"))
	x := ndInt("x")
	vAssert(vOK(vGet(r, "A"), c05Obj("a", x)) == (x >= a), "the aliased type is unchanged")
	vAssert(vOK(vGet(r, "B"), c05Obj("a", x)) == (x >= a), "the alias is unchanged")
	vAssert(vOK(vGet(r, "C"), c05Obj("a", x, "c", "s")) == (x >= c), "the derived type has its own constraint")
}

func VH_C05_grandchild() {
	g, p, c := ndInt("g"), ndInt("p"), ndInt("c")
	vAssume(vAnd(p >= g, c >= p))
	d := func(n, t string, m int64, extra string) string {
		return "  " + n + ":\n    type: " + t + "\n    properties:\n      x:\n        type: integer\n        minimum: " + vPlace(m) + "\n      " + extra + ": string\n"
	}
	r := c05Lib(vPerm("order", d("G", "object", g, "g"), d("P", "G", p, "p"), d("C", "P", c, "c")))
	x := ndInt("x")
	vAssert(vOK(vGet(r, "G"), c05Obj("x", x, "g", "s")) == (x >= g), "the grandparent is unchanged")
	vAssert(vOK(vGet(r, "P"), c05Obj("x", x, "g", "s", "p", "s")) == (x >= p), "the parent is unchanged")
	vAssert(vOK(vGet(r, "C"), c05Obj("x", x, "g", "s", "p", "s", "c", "s")) == (x >= c), "the child is exact")
	vAssert(!vOK(vGet(r, "C"), c05Obj("x", x, "p", "s", "c", "s")), "the child requires the grandparent's property")
}

// VH_C05_inherited_maps: a child without properties of its own and then its child.
func VH_C05_inherited_maps() {
	a, c := ndInt("a"), ndInt("c")
	r := c05Lib(vPerm("order",
		"  A:\n    type: object\n    properties:\n      a:\n        type: integer\n        minimum: "+vPlace(a)+"\n",
		"  B:\n    type: A\n    description: b\n",
		"  C:\n    type: B\n    properties:\n      c:\n        type: integer\n        minimum: "+vPlace(c)+"\n",
		"  D:\n    type: [B, E]\n", "  E:\n    type: object\n    properties:\n      e: string\n"))
	x, y := ndInt("x"), ndInt("y")
	vAssert(vOK(vGet(r, "A"), c05Obj("a", x, "c", true)) == (x >= a), "the base type is unchanged")
	vAssert(vOK(vGet(r, "B"), c05Obj("a", x, "c", true)) == (x >= a), "the middle type is unchanged")
	vAssert(vOK(vGet(r, "C"), c05Obj("a", x, "c", y)) == vAnd(x >= a, y >= c), "the derived type is exact")
	vAssert(vOK(vGet(r, "D"), c05Obj("a", x, "e", "s")) == (x >= a), "the type with two parents is exact")
	vAssert(!vOK(vGet(r, "D"), c05Obj("a", x)), "the type with two parents requires both")
}

// c05Bases: A and the types it needs.
var c05Bases = []string{
	"  A: string\n",
	"  A:\n    type: string\n    minLength: 1\n    maxLength: 9\n    pattern: ^a\n    enum: [a, ab]\n    default: a\n    example: ab\n    displayName: a\n    description: d\n    (an): 1\n",
	"  A:\n    type: integer\n    minimum: 1\n    maximum: 9\n    multipleOf: 2\n    format: int64\n    enum: [2, 4]\n    facets:\n      f?: integer\n      g?:\n        type: string\n        minLength: 1\n    (an): 1\n",
	"  A:\n    type: number\n    minimum: 0.5\n    maximum: 9.5\n    format: float\n",
	"  A:\n    type: boolean\n    default: true\n", "  A: nil\n", "  A: any\n", "  A:\n    type: any\n    description: d\n    facets:\n      f?: any\n",
	"  A:\n    type: datetime\n    format: rfc2616\n", "  A:\n    type: date-only\n    description: d\n", "  A:\n    type: file\n    fileTypes: [a/b]\n    minLength: 1\n    maxLength: 9\n",
	"  A:\n    type: array\n    minItems: 1\n    maxItems: 5\n    uniqueItems: true\n    items: X\n", "  A: X[]\n", "  A:\n    type: array\n",
	"  A:\n    properties:\n      a: integer\n      b?: X\n      x?:\n        type: X\n        maxLength: 7\n    minProperties: 1\n    maxProperties: 5\n    additionalProperties: true\n    facets:\n      f?: integer\n      h?: X\n    (an): 2\n    example:\n      a: 1\n",
	"  A:\n    properties:\n      a: string\n      /^b/: X\n      x?: Y[]\n", "  A:\n    discriminator: a\n    discriminatorValue: q\n    properties:\n      a: string\n      self?: A\n      list?: A[]\n      u?: A | nil\n",
	"  A: X | integer\n", "  A: Y\n", "  A:\n    type: Y\n    properties:\n      z?: X | Y | nil\n    f: 1\n", "  A: Y | X[]\n",
}

const c05Help = "  X: string\n  Y:\n    type: object\n    facets:\n      f?: integer\n    properties:\n      a?: string\n      y?:\n        type: X\n        minLength: 2\n"

// c05Uses: what a library can do with A.
var c05Uses = []string{
	"  C: A\n", "  C:\n    type: A\n", "  C:\n    type: A\n    description: c\n    displayName: c\n    required: false\n", "  C:\n    type: A\n    (an): 7\n    (am): 8\n", "  C:\n    type: A\n    facets:\n      k?: integer\n    k: 5\n",
	"  C:\n    type: A\n    f: 5\n  C2:\n    type: [A, C]\n", "  C: [A, A]\n", "  C: A[]\n  C2:\n    type: C\n    maxItems: 2\n", "  C: A | nil\n  C2: nil | A | X\n", "  C:\n    properties:\n      p: A\n      q?: A\n      /^r/: A\n",
	"  C:\n    properties:\n      p: A\n  C2:\n    type: C\n    properties:\n      p:\n        type: A\n        description: c\n", "  C:\n    properties:\n      p: any\n  C2:\n    type: C\n    properties:\n      p: A\n", "  C:\n    items: A\n  C2:\n    type: C\n    items:\n      type: A\n      description: c\n",
	"  C:\n    properties:\n      p: A | Y\n  C2:\n    type: C\n    properties:\n      p: A\n", "  C:\n    type: A\n    default: x\n    example: y\n", "  C:\n    type: A\n    minLength: 2\n    maxLength: 3\n", "  C:\n    type: A\n    minimum: 3\n    maximum: 4\n", "  C:\n    type: A\n    minItems: 2\n    uniqueItems: true\n",
	"  C:\n    type: A\n    minProperties: 2\n    properties:\n      a: integer\n      c: string\n      /^z/: nil\n", "  C:\n    type: A\n    additionalProperties: false\n    properties:\n      a: string\n", "  C:\n    type: A\n    properties:\n      a?: string\n      x:\n        type: string\n        maxLength: 3\n",
	"  B:\n    properties:\n      b: string\n      x?: X\n    facets:\n      g?: integer\n    g: 4\n  C:\n    type: [A, B]\n", "  B:\n    properties:\n      b: string\n  C:\n    type: [B, A]\n    properties:\n      a: string\n", "  B:\n    type: string\n    minLength: 2\n  C: [A, B]\n  D: [B, A]\n", "  B:\n    type: integer\n    minimum: 3\n    facets:\n      k?: any\n    k: 3\n  C: [A, B]\n  D: [B, A]\n",
	"  B:\n    type: array\n    items: X\n    maxItems: 3\n  C: [A, B]\n  D: [B, A]\n", "  B: A\n  C: B\n  D:\n    type: C\n    description: d2\n", "  C:\n    type: A\n    items:\n      maxLength: 3\n", "  C:\n    type: A\n    pattern: ^b\n    enum: [a]\n", "  C:\n    type: A\n    fileTypes: [a/b]\n    maxLength: 4\n",
}

// c05Uses0 compares A, X and Y in a library with and without uses of A.
func c05Uses0(n int) {
	base := c05Bases[ndChoice(len(c05Bases), "base")]
	u := ""
	for i, at := 0, 0; i < n; i++ {
		at += ndChoice(len(c05Uses)-at, "use")
		x := c05Uses[at]
		if i > 0 {
			x = strings.NewReplacer("  B:", "  BB:", "  C:", "  CC:", "  C2:", "  CC2:", "  D:", "  DD:", "[A, B]", "[A, BB]", "[B, A]", "[BB, A]", "[A, C]", "[A, CC]", ": B\n", ": BB\n", ": C\n", ": CC\n").Replace(x)
		}
		u += x
	}
	head := "annotationTypes:\n  an: integer\n  am: integer\ntypes:\n"
	doc := head + u + base + c05Help
	switch ndChoice(3, "order") {
	case 1:
		doc = head + base + c05Help + u
	case 2:
		doc = head + c05Help + u + base
	}
	var opts []ParseOpt
	if ndBool("validate") {
		opts = append(opts, OptWithValidate())
	}
	opts = append(opts, OptWithUnwrap())
	r1, err := vLib(head+base+c05Help, OptWithUnwrap())
	vAssert(err == nil, "the library is well formed")
	r2, err := vLib(doc, opts...)
	if err != nil {
		vReach("not possible")
		return
	}
	for _, t := range []string{"A", "X", "Y"} {
		vAssert(vShow(vGet(r2, t), false) == vShow(vGet(r1, t), false), "a type is what it is without its uses")
	}
	vReach("compared")
}

func VH_C05_uses() { c05Uses0(1) }

func VH_C05_uses_T() { c05Uses0(2) }
