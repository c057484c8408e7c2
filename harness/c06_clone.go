package raml

//use: common.go
//bound: 34 forms of types (every kind of link between types: properties, pattern properties, items, union members, parents, several parents, aliases, included data types, custom facet definitions, recursion, nesting to depth 3), cloned before and after unwrapping, every reachable shape of the copy (or of the original) changed; symbolic facet values and instances over int64
//assume: nodes of examples, defaults, enums, custom facets and annotations are shared by clones (documented: they are never changed in place)

import (
	"math/big"

	orderedmap "github.com/wk8/go-ordered-map/v2"
)

var _ = vReg("VH_C06_detached", VH_C06_detached)
var _ = vReg("VH_C06_mutate", VH_C06_mutate)
var _ = vReg("VH_C06_unwrap", VH_C06_unwrap)
var _ = vReg("VH_C06_values", VH_C06_values)
var _ = vReg("VH_C06_shared_map", VH_C06_shared_map)
var _ = vReg("VH_C06_inherit", VH_C06_inherit)
var _ = vReg("VH_C06_shallow", VH_C06_shallow)

var c06Types = []string{
	"  T:\n    type: object\n    description: d\n    properties:\n      a:\n        type: integer\n        minimum: 1\n      b?: A\n      /^p/: string\n  A:\n    type: string\n    pattern: ^a\n",
	"  T:\n    type: object\n    properties:\n      next?: T\n      list?: T[]\n",
	"  T: A[]\n  A:\n    type: object\n    properties:\n      b: B\n  B:\n    type: integer\n    enum: [1, 2]\n",
	"  T: A | B | string[]\n  A:\n    type: integer\n    maximum: 5\n  B:\n    type: object\n    minProperties: 2\n",
	"  T:\n    type: [A, B]\n    minProperties: 1\n  A:\n    type: object\n    properties:\n      a: string\n  B:\n    type: object\n    properties:\n      b: A\n",
	"  T: A\n  A: B\n  B:\n    type: object\n    properties:\n      x: integer\n",
	"  T:\n    type: A\n    maxProperties: 4\n  A:\n    type: object\n    facets:\n      f?: B\n  B:\n    type: integer\n    maximum: 3\n",
	"  T:\n    type: !include p.raml\n    description: t\n",
	"  T:\n    type: object\n    properties:\n      inc: !include p.raml\n      other:\n        type: !include p.raml\n        description: o\n",
	"  T:\n    facets:\n      f: integer\n      g?: A\n    type: string\n  A:\n    type: object\n    properties:\n      x: string[]\n",
	"  T:\n    type: array\n    items:\n      type: array\n      minItems: 1\n      items:\n        type: object\n        properties:\n          deep: A\n  A:\n    type: datetime\n    format: rfc2616\n",
	"  T:\n    type: A\n    (an): 5\n  A:\n    type: number\n    minimum: 0.5\n    example: 1.5\n    default: 2.5\n    (an): 6\n",
	"  T: A | nil\n  A:\n    type: object\n    properties:\n      t?: T\n      u: string | T\n",
	"  T:\n    type: file\n    fileTypes: [a/b]\n    maxLength: 7\n    examples:\n      one: x\n      two: y\n",
	"  T: [A, B]\n  A: string\n  B:\n    type: string\n    maxLength: 4\n",
	"  T:\n    type: [A, B, C]\n    description: t\n  A:\n    type: integer\n    minimum: 1\n  B:\n    type: integer\n    maximum: 9\n  C: A\n",
	"  T:\n    type: [A, B]\n  A:\n    type: array\n    items: X\n  B:\n    type: array\n    items:\n      type: X\n      maxLength: 9\n  X: string\n",
	"  T:\n    properties:\n      a:\n        type: [A, B]\n        minLength: 1\n      b?: [B, A]\n  A: string\n  B:\n    type: string\n    pattern: ^a\n",
	"  T:\n    type: [A, B, A2]\n    f: 1\n    g: x\n  A:\n    type: object\n    facets:\n      f?: integer\n  B:\n    type: object\n    facets:\n      g?: S\n  S: string\n  A2:\n    type: A\n    f: 2\n",
	"  T:\n    type: A\n    properties:\n      t?: T\n      a?: A\n  A:\n    properties:\n      x: T[]\n",
	"  T:\n    properties:\n      /^x/: T\n      /^y/: T | nil\n      z?: A\n  A:\n    items: T\n",
	"  T: A\n  A: B | nil\n  B: C\n  C: string[]\n",
	"  T:\n    properties:\n      a: X\n      b: Y\n      c:\n        type: Y\n        description: c\n  X: Y\n  Y: Z\n  Z: boolean\n",
	"  T:\n    type: boolean\n    enum: [true]\n    default: true\n    required: false\n",
	"  T:\n    discriminator: k\n    discriminatorValue: v\n    additionalProperties: false\n    minProperties: 1\n    properties:\n      k: string\n      n: nil\n      d?: date-only\n      e?: time-only\n      f?: datetime-only\n",
	"  T: '{\"type\": \"object\"}'\n",
	"  T:\n    type: A\n    description: t\n  A: '{\"type\": \"string\", \"minLength\": 3}'\n",
	"  T:\n    uniqueItems: true\n    maxItems: 3\n    items:\n      type: U\n    example: [1, x]\n  U: integer | V\n  V: string | W\n  W: nil\n",
	"  T:\n    facets:\n      h: T2\n    type: A\n  A:\n    type: any\n    facets:\n      f?:\n        type: [S, R]\n  S: string\n  R:\n    type: string\n    minLength: 0\n  T2:\n    type: object\n    facets:\n      k?: integer\n    k: 3\n",
	"  T: [P, Q]\n  P: !include p.raml\n  Q:\n    type: !include p.raml\n    maxProperties: 9\n",
	"  T:\n    type: P\n    displayName: n\n  P:\n    type: array\n    items: !include p.raml\n",
	"  T:\n    type: A\n    properties:\n      u: integer\n  A:\n    properties:\n      u: integer | string\n      v?: (string | nil)[]\n",
	"  T:\n    type: any\n    (an): 4\n    example:\n      value: 1\n      displayName: e\n      (an): 3\n",
	"  T:\n    type: string\n    enum: [a, b]\n    pattern: ^.\n    minLength: 1\n    maxLength: 1\n    example:\n      value: a\n      strict: false\n",
}

func c06Lib(unwrap bool) (*RAML, *BaseShape) {
	vFile("p.raml", "#%RAML 1.0 DataType\ntype: object\nproperties:\n  z: string[]\n  w?:\n    type: integer\n    minimum: 3\n")
	doc := "#%RAML 1.0 Library\nannotationTypes:\n  an: integer\ntypes:\n" + c06Types[ndChoice(len(c06Types), "type")]
	var r *RAML
	var err error
	if unwrap {
		r, err = ParseFromString(doc, "lib.raml", vDir(), OptWithUnwrap())
	} else {
		r, err = ParseFromString(doc, "lib.raml", vDir())
	}
	vAssert(err == nil, "the library is well formed")
	return r, vGet(r, "T")
}

func VH_C06_detached() {
	_, t := c06Lib(ndBool("unwrapped"))
	before := vShow(t, true)
	c := t.CloneDetached()
	vAssert(vShow(c, true) == before, "a detached copy is equal to the original")
	vAssert(vShow(t, true) == before, "copying does not change the original")
	mine := map[*BaseShape]bool{}
	orig := vReachable(t, true)
	for _, s := range orig {
		mine[s] = true
	}
	cl := vReachable(c, true)
	vAssert(len(cl) == len(orig), "a copy has as many shapes as the original")
	for _, s := range cl {
		vAssert(!mine[s], "a detached copy shares no shape with the original")
		if s.Shape != nil {
			vAssert(s.Shape.Base() == s, "the facets of a copied shape belong to it")
		}
	}
}

// c06Change changes everything about a shape that its fields let a user change.
func c06Change(s *BaseShape, how int) {
	d := "changed"
	five, yes := uint64(77), true
	switch how {
	case 0:
		s.Description, s.DisplayName = &d, &d
		s.Required = &yes
	case 1:
		s.CustomShapeFacets.Set("new", &Node{Value: "x"})
		s.CustomDomainProperties.Set("new", &DomainExtension{Extension: &Node{Value: "x"}})
		s.CustomShapeFacetDefinitions.Set("new", Property{Name: "new", Base: s})
	case 2:
		s.CustomShapeFacets.Delete("f")
		s.CustomDomainProperties.Delete("an")
		s.CustomShapeFacetDefinitions.Delete("f")
	case 3:
		for i := range s.Inherits {
			s.Inherits[i] = s
		}
		s.Alias = nil
		if s.Link != nil {
			s.Link.Shape = s
			s.Link.Location = "elsewhere"
		}
	case 4:
		switch t := s.Shape.(type) {
		case *IntegerShape:
			t.Minimum, t.Enum = big.NewInt(-7), nil
		case *NumberShape:
			t.Minimum = nil
		case *StringShape:
			t.MaxLength, t.Pattern = &five, nil
		case *FileShape:
			t.MaxLength, t.FileTypes = nil, nil
		case *DateTimeShape:
			t.Format = nil
		case *ArrayShape:
			t.MaxItems, t.UniqueItems, t.Items = &five, &yes, nil
		case *ObjectShape:
			t.MaxProperties, t.AdditionalProperties = &five, &yes
			if t.Properties != nil {
				t.Properties.Set("new", Property{Name: "new", Base: s})
				t.Properties.Delete("a")
				t.Properties.Delete("x")
			}
			if t.PatternProperties != nil {
				t.PatternProperties.Delete("/^p/")
			}
		case *UnionShape:
			for i := range t.AnyOf {
				t.AnyOf[i] = s
			}
		case *RecursiveShape:
			t.Head = s
		}
	}
}

func VH_C06_mutate() {
	_, t := c06Lib(ndBool("unwrapped"))
	c := t.CloneDetached()
	changed, kept := c, t
	if ndBool("change the original") {
		changed, kept = t, c
	}
	before := vShow(kept, true)
	how := ndChoice(5, "change")
	for _, s := range vReachable(changed, true) {
		c06Change(s, how)
	}
	vAssert(vShow(kept, true) == before, "changing one copy does not change the other")
}

func VH_C06_unwrap() {
	r, t := c06Lib(false)
	before := vShow(t, true)
	c := t.CloneDetached()
	u, err := r.UnwrapShape(c)
	vAssert(err == nil, "a copy unwraps")
	r.FindAndMarkRecursion(u)
	vAssert(u.IsUnwrapped() && !t.IsUnwrapped(), "unwrapping a copy leaves the original as it was")
	vAssert(vShow(t, true) == before, "unwrapping a copy does not change the original")
	v, err := r.UnwrapShape(t)
	vAssert(err == nil, "the original unwraps")
	r.FindAndMarkRecursion(v)
	vAssert(vShow(u, false) == vShow(v, false), "a copy unwraps to the same type as the original")
}

// VH_C06_values: copies accept the same values as the original.
func VH_C06_values() {
	lo, hi, n := ndInt("lo"), ndInt("hi"), ndUint("n")
	r, err := vLib("types:\n  T:\n    type: object\n    properties:\n      a: A\n      next?: T\n      l?: A[]\n      u?: A | B\n  A:\n    type: integer\n    minimum: "+vPlace(lo)+
		"\n  B:\n    type: integer\n    maximum: "+vPlace(hi)+"\n    description: b\n  L:\n    type: array\n    items: T\n    minItems: "+vPlace(n)+"\n", OptWithUnwrap())
	vAssert(err == nil, "the library is well formed")
	name := []string{"T", "L"}[ndChoice(2, "type")]
	t := vGet(r, name)
	var c *BaseShape
	switch ndChoice(4, "copy") {
	case 0:
		c = t.CloneDetached()
	case 1:
		c = t.Clone(map[int64]*BaseShape{})
	case 2:
		c = t.CloneShallow()
	case 3:
		c = t.CloneDetached().CloneDetached()
	}
	x, y := ndInt("x"), ndInt("y")
	v := map[string]any{"a": x}
	switch ndChoice(4, "value") {
	case 0:
		v["next"] = map[string]any{"a": y}
	case 1:
		v["l"] = []any{y}
	case 2:
		v["u"] = y
	case 3:
		v["next"] = map[string]any{"a": x, "next": map[string]any{"a": y}}
	}
	var w any = v
	if name == "L" {
		w = []any{v}
	}
	want := vOK(t, w)
	vAssert(vOK(c, w) == want, "a copy accepts the same values as the original")
}

// VH_C06_shared_map: the clone map keeps relationships over several Clone calls.
func VH_C06_shared_map() {
	r, t := c06Lib(ndBool("unwrapped"))
	m := map[int64]*BaseShape{}
	c := t.Clone(m)
	vAssert(t.Clone(m) == c, "a shape is cloned once for one map")
	for _, s := range vReachable(t, true) {
		k := s.Clone(m)
		vAssert(k == m[s.ID] && k != s, "every reachable shape has one clone in the map")
		vAssert(k.ID == s.ID, "a clone keeps its ID")
	}
	for p := r.EntryPoint().(*Library).Types.Oldest(); p != nil; p = p.Next() {
		k := p.Value.Clone(m)
		vAssert(vShow(k, true) == vShow(p.Value, true), "a clone made with a shared map is equal to its original")
	}
}

// VH_C06_inherit: deriving from or into a copy.
func VH_C06_inherit() {
	lo, mid := ndInt("lo"), ndInt("mid")
	vAssume(mid >= lo)
	r, err := vLib("types:\n  P:\n    type: object\n    description: p\n    properties:\n      a:\n        type: integer\n        minimum: "+vPlace(lo)+"\n      b?: string\n"+
		"  C:\n    type: object\n    properties:\n      a:\n        type: integer\n        minimum: "+vPlace(mid)+"\n      c?: string\n", OptWithUnwrap())
	vAssert(err == nil, "the library is well formed")
	p, c := vGet(r, "P"), vGet(r, "C")
	q := c.CloneDetached()
	_, err = q.Inherit(p)
	vAssert(err == nil, "a copy inherits")
	x := ndInt("x")
	vAssert(vOK(c, map[string]any{"a": x, "b": true}) == (x >= mid), "the original does not inherit with its copy")
	vAssert(c.Description == nil, "the original does not get the description")
	vAssert(vOK(p, map[string]any{"a": x, "c": true}) == (x >= lo), "the source does not change")
	vAssert(vOK(q, map[string]any{"a": x}) == (x >= mid), "the copy keeps its own constraint")
	vAssert(!vOK(q, map[string]any{"a": x, "b": true}), "the copy has the inherited property")
}

// VH_C06_shallow: a shallow copy has its own top level.
func VH_C06_shallow() {
	_, t := c06Lib(ndBool("unwrapped"))
	before := vShow(t, true)
	c := t.CloneShallow()
	if len(vReachable(c, true)) == len(vReachable(t, true)) { // not recursive through t itself
		vAssert(vShow(c, true) == before, "a shallow copy is equal to the original")
	}
	vAssert(c != t && c.Shape.Base() == c && t.Shape.Base() == t, "the facets of a shallow copy belong to it")
	how := ndChoice(3, "change")
	c06Change(c, how)
	if how == 0 {
		switch s := c.Shape.(type) {
		case *ObjectShape:
			s.Properties = orderedmap.New[string, Property]()
			s.PatternProperties = nil
		case *ArrayShape:
			s.Items = nil
		case *UnionShape:
			s.AnyOf = nil
		}
	}
	vAssert(vShow(t, true) == before, "changing the top level of a shallow copy does not change the original")
}
