package raml

//use: common.go gen.go
//bound: every ordered pair (thorough: triple) of 17 kinds of member in a union against 15 kinds of value, and every kind at 7 places; 30 composite types (objects with up to 5 properties and 3 pattern properties, arrays of up to 4 items, unions of up to 5 members, nesting to depth 4, recursion unrolled to depth 3, all facets symbolic): every value with the structure of a member and symbolic leaves that deviates at one node (thorough: two), by another kind of value, a missing, additional or oddly named key, fewer, equal or foreign items

var _ = vReg("VH_C02_generic", VH_C02_generic)
var _ = vReg("VH_C02_members", VH_C02_members)
var _ = vReg("VH_C02_members_T", VH_C02_members_T)
var _ = vReg("VH_C02_places", VH_C02_places)
var _ = vReg("VH_C02_generic_long", VH_C02_generic_long)
var _ = vReg("VH_C02_generic_long_T", VH_C02_generic_long_T)
var _ = vReg("VH_C02_generic_two", VH_C02_generic_two)
var _ = vReg("VH_C02_generic_two_T", VH_C02_generic_two_T)

func c02Recursive() *gT {
	n := gObj(gReq("v", gMin("v")))
	r := gRef("T", n)
	n.props = append(n.props, gOpt("next", r), gOpt("kids", gArr(r)))
	return r
}

func c02Mutual() *gT {
	a, b := gObj(gReq("v", gMin("v"))), gObj(gOpt("s", gStr("s")))
	ra, rb := gRef("T", a), gRef("B", b)
	a.props = append(a.props, gOpt("b", rb))
	b.props = append(b.props, gOpt("a", ra))
	return ra
}

func c02RecUnion() *gT {
	n := gObj(gReq("v", gMin("v")))
	r := gRef("T", n)
	n.props = append(n.props, gOpt("next", gU(r, gK("string"), gK("nil"))))
	return r
}

func c02RecPattern() *gT {
	n := gObj()
	r := gRef("T", n)
	n.pats = []gP{gPre("x", r), gPre("v", gMax("v"))}
	return r
}

var c02Types = []func() *gT{
	func() *gT {
		return gObj(gReq("a", gInt("a")), gOpt("b", gStr("b")), gReq("c", gK("boolean")), gOpt("d", gK("any")), gReq("e", gK("nil")))
	},
	func() *gT { return gObj(gReq("a", gInt("a")), gOpt("b", gStr("b"))).close() },
	func() *gT { return gObj(gOpt("a", gMax("a"))).count(ndUint("min"), ndUint("max")) },
	func() *gT {
		return gObj(gReq("a", gK("any"))).with(gPre("x", gMax("x")), gPre("xy", gMin("xy")), gPre("xyz", gK("string")))
	},
	func() *gT { return gObj().with(gPre("x", gInt("x")), gSuf("z", gK("nil")), gPre("", gK("object"))) },
	func() *gT { return gObj(gReq("a", gObj(gReq("b", gObj(gReq("c", gObj(gReq("d", gInt("d"))))))))) },
	func() *gT {
		return gObj(gReq("a", gObj(gOpt("b", gK("integer"))).close()), gReq("c", gArr(gObj(gReq("d", gMin("d"))).close())))
	},
	func() *gT { return gArr(gInt("i")) },
	func() *gT { return gArr(gInt("i")).count(ndUint("min"), ndUint("max")) },
	func() *gT { return gArr(gK("any")).unique() },
	func() *gT { return gArr(gObj(gOpt("a", gK("integer")))).unique() },
	func() *gT { return gArr(gArr(gMin("i")).unique()).unique() },
	func() *gT { return gArr(gArr(gArr(gMax("i")))) },
	func() *gT { return gArr(gObj(gReq("a", gMin("a")), gOpt("l", gArr(gStr("s"))))) },
	func() *gT { return gArr(gU(gRef("I", gMin("i")), gRef("S", gStr("s")), gK("nil"))) },
	func() *gT { return gArr(gRef("U", gU(gRef("I", gMin("i")), gRef("J", gMax("j"))))).unique() },
	func() *gT {
		return gU(gRef("A", gMin("a")), gK("string"), gK("boolean"), gK("nil"), gRef("E", gMax("e")))
	},
	func() *gT {
		return gU(gRef("A", gObj(gReq("k", gMin("k"))).close()), gRef("B", gObj(gReq("k", gMax("k")), gOpt("l", gK("string"))).close()))
	},
	func() *gT {
		return gU(gArr(gRef("I", gMin("i"))), gArr(gK("string")), gRef("O", gObj(gOpt("a", gK("integer")))))
	},
	func() *gT {
		return gU(gRef("U", gU(gRef("A", gMin("a")), gK("nil"))), gRef("V", gU(gRef("B", gMax("b")), gK("boolean"))))
	},
	func() *gT {
		return gObj(gReq("u", gU(gRef("A", gMin("a")), gRef("S", gStr("s")))), gOpt("v", gU(gK("nil"), gRef("A2", gMax("m")))))
	},
	func() *gT {
		return gObj(gReq("u", gRef("O", gU(gRef("P", gObj(gReq("t", gMax("t")))), gRef("Q", gObj(gReq("w", gMin("w"))))))))
	},
	func() *gT { return gObj().with(gPre("x", gRef("U", gU(gRef("A", gMin("a")), gK("string"))))) },
	func() *gT {
		return gObj().with(gPre("x", gArr(gRef("A", gMin("a")))), gPre("y", gObj(gReq("q", gMax("q")))))
	},
	func() *gT { return gObj(gReq("x1", gMax("p"))).with(gPre("x", gMin("q"))) },
	func() *gT {
		return gObj(gReq("a.b", gMin("a")), gOpt("", gMax("b")), gReq("c d", gK("string"))).close()
	},
	c02Recursive, c02Mutual, c02RecUnion, c02RecPattern,
	func() *gT { return gArr(c02Recursive2()) },
}

func c02Recursive2() *gT {
	n := gObj(gReq("v", gMin("v")))
	r := gRef("R", n)
	n.props = append(n.props, gOpt("next", r))
	return r
}

func c02Generic(types []func() *gT, devs, long int) {
	t := types[ndChoice(len(types), "type")]()
	b, err := vUnwrapped(gDoc(t), "T")
	vAssert(err == nil, "the type is well formed")
	g := &gGen{depth: 4, long: long}
	if t.k == "ref" {
		g.depth = 3
	}
	for i := 0; i < devs; i++ {
		g.dev = append(g.dev, ndChoice(18, "where")-1)
	}
	for i := 1; i < devs; i++ {
		vAssume(g.dev[i] > g.dev[i-1])
	}
	v := g.val(t)
	for _, d := range g.dev {
		vAssume(d < g.n)
	}
	want := t.ok(v)
	vAssert(vOK(b, v) == want, "a composite value is accepted exactly when every level satisfies its type")
}

// VH_C02_generic_long: longer arrays.
func VH_C02_generic_long() {
	c02Generic([]func() *gT{c02Types[7], c02Types[8], c02Types[9]}, 1, 5)
}

// VH_C02_generic_long_T: longer arrays of unions.
func VH_C02_generic_long_T() { c02Generic([]func() *gT{c02Types[14]}, 1, 4) }

// VH_C02_generic: one deviation.
func VH_C02_generic() { c02Generic(c02Types, 1, 2) }

// VH_C02_generic_two: two deviations on flat types.
func VH_C02_generic_two() {
	c02Generic([]func() *gT{c02Types[1], c02Types[2], c02Types[17], c02Types[24]}, 2, 2)
}

func VH_C02_generic_two_T() { c02Generic(c02Types, 2, 4) }

// c02Kind makes a member of every kind.
func c02Kind(i int, tag string) *gT {
	ref := func(t *gT) *gT { return gRef("K"+tag, t) }
	switch i {
	case 0:
		return gK("nil")
	case 1:
		return gK("boolean")
	case 2:
		return ref(gMin(tag))
	case 3:
		t := gK("integer")
		t.enum = []any{int64(3), int64(-5)}
		return ref(t)
	case 4:
		return gK("number")
	case 5:
		return ref(gStr(tag))
	case 6:
		return gK("date-only")
	case 7:
		return gK("datetime")
	case 8:
		return ref(gArr(nil))
	case 9:
		return gArr(gK("integer"))
	case 10:
		return ref(gArr(gK("any")).unique())
	case 11:
		return ref(gArr(gK("nil")).count(1, 2))
	case 12:
		return gK("object")
	case 13:
		return ref(gObj(gReq("a", gMax(tag))))
	case 14:
		return ref(gObj(gOpt("a", gK("integer"))).close())
	case 15:
		return ref(gObj().with(gPre("a", gK("nil"))))
	}
	return gK("any")
}

const c02Kinds = 17

func c02Value(dates bool) any {
	switch ndChoice(15, "value") {
	case 0:
		return nil
	case 1:
		return ndBool("v")
	case 2:
		return ndInt("v")
	case 3:
		return 1.5
	case 4:
		return "2020-01-02"
	case 5:
		return "2020-01-02T12:30:00Z"
	case 6:
		if dates {
			return "word"
		}
		return ndAtom(9)
	case 7:
		return []any{}
	case 8:
		return []any{ndInt("v0"), ndInt("v1")}
	case 9:
		return []any{nil}
	case 10:
		return []any{nil, nil, nil}
	case 11:
		return map[string]any{}
	case 12:
		return map[string]any{"a": ndInt("va")}
	case 13:
		return map[string]any{"a": nil}
	}
	return map[string]any{"b": true}
}

func (t *gT) dates() bool {
	for _, m := range t.of {
		if m.dates() {
			return true
		}
	}
	return t.k == "date-only" || t.k == "datetime" || t.items != nil && t.items.dates()
}

// c02In puts a type into a container and makes values of the container out of its values.
func c02In(t *gT, place int) (*gT, func(v any) any) {
	obj := func(k string) func(v any) any { return func(v any) any { return map[string]any{k: v} } }
	switch place {
	case 0:
		return t, func(v any) any { return v }
	case 1:
		return gArr(t), func(v any) any { return []any{v} }
	case 2:
		return gObj(gReq("p", t)), obj("p")
	case 3:
		return gObj(gOpt("p", t)), obj("p")
	case 4:
		return gObj().with(gPre("p", t)), obj("pq")
	case 5:
		return gObj(gReq("p", gArr(t))), func(v any) any { return map[string]any{"p": []any{v}} }
	}
	return gU(gRef("KU", t), gRef("KB", gObj(gReq("none", gK("string"))))), func(v any) any { return v }
}

func c02Member(t *gT, place int) {
	c, wrap := c02In(t, place)
	b, err := vUnwrapped(gDoc(c), "T")
	vAssert(err == nil, "the type is well formed")
	v := wrap(c02Value(t.dates()))
	vAssert(vOK(b, v) == c.ok(v), "a value is accepted exactly when it satisfies a member")
}

// VH_C02_members: unions of every two kinds.
func VH_C02_members() {
	i, j := ndChoice(c02Kinds, "first"), ndChoice(c02Kinds, "second")
	c02Member(gU(c02Kind(i, "1"), c02Kind(j, "2")), 0)
}

// VH_C02_members_T: unions of every three kinds.
func VH_C02_members_T() {
	i, j, k := ndChoice(c02Kinds, "first"), ndChoice(c02Kinds, "second"), ndChoice(c02Kinds, "third")
	c02Member(gU(c02Kind(i, "1"), c02Kind(j, "2"), c02Kind(k, "3")), 0)
}

// VH_C02_places: every kind at every place.
func VH_C02_places() {
	place := ndChoice(7, "place")
	i := ndChoice(c02Kinds+2, "kind")
	if i == c02Kinds {
		c02Member(gRef("KR", gU(c02Kind(0, "1"), c02Kind(13, "2"))), place)
	} else if i > c02Kinds {
		c02Member(gU(c02Kind(12, "1"), c02Kind(9, "2"), c02Kind(6, "3")), place)
	} else {
		c02Member(c02Kind(i, "1"), place)
	}
}
