package raml

//use: common.go
//bound: a reference to itself (direct, by alias, by another type) at 12 sites among up to three properties before, two after, two pattern properties and two custom facets; graphs of two types with 17 forms of reference between them and of three with 11 (every cycle of length up to 3, in every declaration order), over a library, two libraries that use each other and data types that include each other or a library; values of up to three levels; recursive types with inherited facets: ten shapes of recursion, symbolic minProperties/maxProperties/minItems and symbolic leaves, instances of three levels; with and without unwrapping and validation
//assume: the graphs carry no facets that contradict each other

import "strings"

var _ = vReg("VH_C13_pairs", VH_C13_pairs)
var _ = vReg("VH_C13_company", VH_C13_company)
var _ = vReg("VH_C13_triples", VH_C13_triples)
var _ = vReg("VH_C13_triples_T", VH_C13_triples_T)
var _ = vReg("VH_C13_files", VH_C13_files)
var _ = vReg("VH_C13_objects", VH_C13_objects)
var _ = vReg("VH_C13_arrays", VH_C13_arrays)
var _ = vReg("VH_C13_ring", VH_C13_ring)
var _ = vReg("VH_C13_values", VH_C13_values)

// Forms of a type that refers to another one (%).
var c13Forms = []string{
	"\"%\"", "\"% | string\"", "{type: \"%[]\"}", "{properties: {\"p?\": \"%\"}}", "{type: \"%\", description: d}", "string", "{properties: {\"/^p/\": {type: \"%\", description: d}}}", "{items: \"%\"}", "{type: [\"%\"]}", "{properties: {\"p?\": {type: \"%\", description: d}}}", "\"(%)?\"",
	"{type: array, items: {type: \"%\", description: d}}", "{type: string, facets: {\"f?\": \"%\"}}", "{properties: {\"p?\": \"% | nil\"}}", "{items: {items: \"%\"}}", "{type: \"% | nil\", description: d}", "{properties: {p: \"%\"}}",
}

const (
	c13Hard  = iota // the type is the other one
	c13Union        // the other one is a member
	c13Below        // the other one is used for a part of a value
)

func c13Edge(form int) int {
	switch form {
	case 0, 4, 8:
		return c13Hard
	case 1, 10, 15:
		return c13Union
	}
	return c13Below
}

type c13Graph struct{ form, to []int }

// sound tells whether no type is defined by itself alone.
func (g c13Graph) sound() bool {
	for i := range g.form {
		j := i
		for n := 0; n <= len(g.form); n++ {
			if g.form[j] == 5 || c13Edge(g.form[j]) == c13Below {
				j = -1
				break
			}
			j = g.to[j]
		}
		if j >= 0 {
			return false
		}
	}
	return true
}

// hardCycle tells whether a type is its own ancestor.
func (g c13Graph) hardCycle() bool {
	for i := range g.form {
		j := i
		for n := 0; n <= len(g.form); n++ {
			if g.form[j] == 5 || c13Edge(g.form[j]) != c13Hard {
				j = -1
				break
			}
			j = g.to[j]
		}
		if j >= 0 {
			return true
		}
	}
	return false
}

// ok is the meaning of type i.
func (g c13Graph) ok(i int, v any) bool {
	t := g.to[i]
	_, isStr := v.(string)
	list, isList := v.([]any)
	obj, isObj := v.(map[string]any)
	p, has := obj["p"]
	switch g.form[i] {
	case 0, 4, 8:
		return g.ok(t, v)
	case 1:
		return isStr || g.ok(t, v)
	case 2, 7, 11:
		for _, e := range list {
			if !g.ok(t, e) {
				return false
			}
		}
		return isList
	case 3, 6, 9:
		return isObj && (!has || g.ok(t, p))
	case 5, 12:
		return isStr
	case 10, 15:
		return v == nil || g.ok(t, v)
	case 13:
		return isObj && (!has || p == nil || g.ok(t, p))
	case 14:
		for _, e := range list {
			l, ok := e.([]any)
			if !ok {
				return false
			}
			for _, x := range l {
				if !g.ok(t, x) {
					return false
				}
			}
		}
		return isList
	case 16:
		return isObj && has && g.ok(t, p)
	}
	return false
}

type c13Obj = map[string]any

var c13Values = []any{nil, "s", 5, []any{}, []any{nil}, []any{"s"}, []any{5}, []any{[]any{}}, []any{[]any{"s"}, "s"}, []any{[]any{5}}, []any{c13Obj{}}, []any{c13Obj{"p": "s"}}, c13Obj{}, c13Obj{"p": nil}, c13Obj{"p": "s"}, c13Obj{"p": 5}, c13Obj{"q": 5}, c13Obj{"p": []any{}}, c13Obj{"p": []any{"s"}}, c13Obj{"p": []any{5}}, c13Obj{"p": c13Obj{}}, c13Obj{"p": c13Obj{"p": "s"}}, c13Obj{"p": c13Obj{"p": 5}}, c13Obj{"p": c13Obj{"p": c13Obj{"p": 5}}}, []any{[]any{[]any{5}}}, []any{[]any{[]any{[]any{}}, "s"}}, c13Obj{"p": []any{c13Obj{"p": []any{5}}}}, c13Obj{"p": c13Obj{"p": c13Obj{"p": nil}}}}

// acyclic tells whether a traversal of the type that stops at recursive shapes ends.
func c13Acyclic(b *BaseShape, stack map[*BaseShape]bool) bool {
	if stack[b] {
		return false
	}
	stack[b] = true
	defer delete(stack, b)
	if _, ok := b.Shape.(*RecursiveShape); ok {
		return true
	}
	for _, c := range vChildren(b, false) {
		if !c13Acyclic(c, stack) {
			return false
		}
	}
	return true
}

// c13Judge parses the library and compares it with the meaning of the graph.
func c13Judge(g c13Graph, doc string, get func(r *RAML, i int) *BaseShape) {
	mode := ndChoice(3, "mode")
	var opts []ParseOpt
	if mode != 0 {
		opts = append(opts, OptWithUnwrap())
	}
	if mode != 1 {
		opts = append(opts, OptWithValidate())
	}
	r, err := vLib(doc, opts...)
	if !g.sound() {
		vAssert(err != nil, "a type that is defined by itself alone is rejected")
		return
	}
	vAssert(err == nil, "a type that refers to itself below is accepted")
	if mode == 0 || err != nil {
		return
	}
	for i := range g.form {
		b := get(r, i)
		vAssert(c13Acyclic(b, map[*BaseShape]bool{}), "a traversal that stops at recursive shapes ends")
		for _, v := range c13Values {
			vAssert(vOK(b, v) == g.ok(i, v), "a recursive type accepts exactly the values that match at every depth")
		}
	}
}

var c13Names = []string{"A", "B", "C"}

func c13Lib(g c13Graph, order []int) string {
	doc := "types:\n"
	for _, i := range order {
		doc += "  " + c13Names[i] + ": " + strings.ReplaceAll(c13Forms[g.form[i]], "%", c13Names[g.to[i]]) + "\n"
	}
	return doc
}

func c13ByName(r *RAML, i int) *BaseShape { return vGet(r, c13Names[i]) }

func c13Graphs(n, forms int) c13Graph {
	g := c13Graph{}
	for i := 0; i < n; i++ {
		g.form = append(g.form, ndChoice(forms, "form"))
		g.to = append(g.to, 0)
		if g.form[i] != 5 {
			g.to[i] = ndChoice(n, "refers to")
		}
	}
	return g
}

func VH_C13_pairs() {
	g := c13Graphs(2, len(c13Forms))
	c13Judge(g, c13Lib(g, []int{0, 1}), c13ByName)
}

func VH_C13_triples() {
	g := c13Graphs(3, 5)
	vAssume(g.form[0] <= g.form[1])
	c13Judge(g, c13Lib(g, [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}}[ndChoice(3, "order")]), c13ByName)
}

func VH_C13_triples_T() {
	g := c13Graphs(3, 11)
	c13Judge(g, c13Lib(g, []int{0, 1, 2}), c13ByName)
}

// VH_C13_files: the types are spread over files that refer to each other.
func VH_C13_files() {
	g := c13Graphs(3, 5)
	i := ndChoice(4, "other form")
	if i < 3 {
		vAssume(g.form[i] == 3 || g.form[i] == 2)
		g.form[i] = []int{4, 0, 7, 9}[g.form[i]]
	}
	vAssume(vThorough || i == 3 || g.form[0] == g.form[1] || g.form[1] == g.form[2])
	// A stands in the library, B in another one, C is a data type file.
	ref := func(from, to int) string {
		switch {
		case to == 2:
			return "!include c.raml"
		case from == to && from != 2:
			return c13Names[to]
		}
		return []string{"a.A", "b.B"}[to]
	}
	text := func(i int) string {
		f := c13Forms[g.form[i]]
		w := ref(i, g.to[i])
		if strings.HasPrefix(w, "!") {
			if g.form[i] == 2 { // an include is no type expression
				f = "{type: array, items: \"%\"}"
			}
			vAssume(g.form[i] != 1)
			return strings.Replace(f, "\"%\"", w, 1)
		}
		return strings.Replace(f, "%", w, 1)
	}
	head := "#%RAML 1.0 Library\n"
	aDoc := "uses: {a: lib.raml, b: m.raml}\ntypes:\n  A: " + text(0) + "\n  D: !include c.raml\n"
	vFile("lib.raml", head+aDoc)
	vFile("m.raml", head+"uses: {a: lib.raml, b: m.raml}\ntypes:\n  B: "+text(1)+"\n")
	c := text(2)
	c = strings.TrimSuffix(strings.TrimPrefix(c, "{"), "}")
	switch g.form[2] {
	case 0, 1:
		c = "type: " + c
	case 4:
		c = strings.Replace(c, ", description", "\ndescription", 1)
	}
	vFile("c.raml", "#%RAML 1.0 DataType\nuses: {a: lib.raml, b: m.raml}\n"+strings.Replace(c, "array, items", "array\nitems", 1)+"\n")
	c13JudgeDir(g, head+aDoc)
}

func c13JudgeDir(g c13Graph, doc string) {
	mode := ndChoice(3, "mode")
	var opts []ParseOpt
	if mode != 0 {
		opts = append(opts, OptWithUnwrap())
	}
	if mode != 1 {
		opts = append(opts, OptWithValidate())
	}
	r, err := ParseFromString(doc, "lib.raml", vDir(), opts...)
	if !g.sound() {
		vAssert(err != nil, "a type that is defined by itself alone is rejected")
		return
	}
	vAssert(err == nil, "a type that refers to itself below is accepted")
	if mode == 0 || err != nil {
		return
	}
	lib := r.EntryPoint().(*Library)
	b, _ := lib.Types.Get("A")
	l, _ := lib.Uses.Get("b")
	m, _ := l.Link.Types.Get("B")
	d, _ := lib.Types.Get("D")
	for i, b := range []*BaseShape{b, m, d} {
		vAssert(c13Acyclic(b, map[*BaseShape]bool{}), "a traversal that stops at recursive shapes ends")
		for _, v := range c13Values {
			vAssert(vOK(b, v) == g.ok(i, v), "a recursive type accepts exactly the values that match at every depth")
		}
	}
}

// c13Places: shapes of recursion of an object type N that inherits from M; n is the recursive property.
var c13Objects = []string{
	"  N: {type: M, properties: {\"n?\": N}}\n",
	"  N: {type: M, properties: {\"n?\": {type: N, description: d}}}\n",
	"  X: N\n  N: {type: M, properties: {\"n?\": X}}\n",
	"  N: {type: M, properties: {\"n?\": X}}\n  X: N\n",
	"  X: {type: N, description: d}\n  N: {type: M, properties: {\"n?\": X}}\n",
	"  N: {type: M, properties: {\"n?\": \"N | nil\"}}\n",
	"  N: {type: [M, O], properties: {\"n?\": N}}\n  O: {description: d, type: object}\n",
	"  N: {type: P, description: d}\n  P: {type: M, properties: {\"n?\": N}}\n",
	"  N: {type: M, properties: {\"/^n$/\": N}}\n",
	"  Q: N\n  N: R\n  R: {type: M, properties: {\"n?\": Q}}\n",
	"  N: {type: M, properties: {\"n?\": {properties: {}, type: Q}}}\n  Q: {type: N, description: e}\n",
	"  N: {type: M, properties: {\"n?\": \"(N)\"}}\n",
}

// VH_C13_objects: facets inherited by a recursive object type hold at every depth.
func VH_C13_objects() {
	mn, mx, lo := ndUint("minProperties"), ndUint("maxProperties"), ndInt("minimum")
	m := "  M: {minProperties: " + vPlace(mn) + ", maxProperties: " + vPlace(mx) + ", properties: {\"a?\": {type: integer, minimum: " + vPlace(lo) + "}}}\n"
	vAssume(mn <= mx)
	n := c13Objects[ndChoice(len(c13Objects), "recursion")]
	doc := "types:\n" + n + m
	if ndBool("parent first") {
		doc = "types:\n" + m + n
	}
	r, err := vLib(doc, OptWithUnwrap(), OptWithValidate())
	vAssert(err == nil, "a recursive type that inherits facets is valid")
	if err != nil {
		return
	}
	want := true
	level := func(inner map[string]any) map[string]any {
		v, cnt := map[string]any{}, uint64(0)
		if inner != nil {
			v["n"] = inner
			cnt++
		}
		if ndBool("a") {
			x := ndInt("x")
			v["a"] = x
			cnt++
			want = vAnd(want, x >= lo)
		}
		if ndBool("b") {
			v["b"] = true
			cnt++
		}
		want = vAnd(want, vAnd(cnt >= mn, cnt <= mx))
		return v
	}
	v := level(nil)
	for i, d := 0, ndChoice(3, "depth"); i < d; i++ {
		v = level(v)
	}
	b := vGet(r, "N")
	vAssert(vOK(b, v) == want, "inherited facets hold at every depth of a recursive type")
}

var c13Arrays = []string{
	"  N: {type: M, items: N}\n",
	"  N: {type: M, items: {type: N, description: d}}\n",
	"  X: N\n  N: {type: M, items: X}\n",
	"  N: {type: M, items: X}\n  X: {type: N, description: d}\n",
	"  N: {type: M, items: N | integer}\n",
	"  N: {type: [M, O], items: N}\n  O: array\n",
}

// VH_C13_arrays: the same for arrays.
func VH_C13_arrays() {
	mn, mx := ndUint("minItems"), ndUint("maxItems")
	vAssume(mn <= mx)
	m := "  M: {type: array, minItems: " + vPlace(mn) + ", maxItems: " + vPlace(mx) + "}\n"
	n := c13Arrays[ndChoice(len(c13Arrays), "recursion")]
	doc := "types:\n" + n + m
	if ndBool("parent first") {
		doc = "types:\n" + m + n
	}
	r, err := vLib(doc, OptWithUnwrap(), OptWithValidate())
	vAssert(err == nil, "a recursive type that inherits facets is valid")
	if err != nil {
		return
	}
	want := true
	var level func(d int) []any
	level = func(d int) []any {
		v := []any{}
		if d > 0 {
			for i, c := 0, ndChoice(3, "items"); i < c; i++ {
				v = append(v, level(d-1))
			}
		}
		want = vAnd(want, vAnd(uint64(len(v)) >= mn, uint64(len(v)) <= mx))
		return v
	}
	vAssert(vOK(vGet(r, "N"), level(3)) == want, "inherited facets hold at every depth of a recursive type")
}

// VH_C13_ring: k types that refer to each other in a ring, each with its own symbolic facet.
func VH_C13_ring() {
	k := ndChoice(4, "length") + 1
	how := ndChoice(4, "how")
	los := make([]int64, k)
	doc := "types:\n"
	start := ndChoice(k, "first declared")
	for j := 0; j < k; j++ {
		i := (start + j) % k
		los[i] = ndInt("lo")
		next := "T" + vTxt((i+1)%k)
		prop := []string{"{type: " + next + ", description: d}", next, "\"" + next + " | nil\"", "{type: " + next + ", description: d}"}[(how+how/3*j)%4]
		doc += "  T" + vTxt(i) + ": {properties: {\"n?\": " + prop + ", \"a?\": {type: integer, minimum: " + vPlace(los[i]) + "}}}\n"
	}
	r, err := vLib(doc, OptWithUnwrap(), OptWithValidate())
	vAssert(err == nil, "a ring of types is valid")
	if err != nil {
		return
	}
	depth := k + 1
	want := true
	var v map[string]any
	at := ndChoice(depth+1, "level with a value")
	for i := depth; i >= 0; i-- {
		w := map[string]any{}
		if v != nil {
			w["n"] = v
		}
		if i == at {
			x := ndInt("x")
			w["a"] = x
			want = x >= los[i%k]
		}
		v = w
	}
	vAssert(vOK(vGet(r, "T0"), v) == want, "every level of a value is judged by its own type of the ring")
}

// VH_C13_values: examples and defaults of recursive types are judged at every depth.
func VH_C13_values() {
	mn := ndUint("minProperties")
	where := []string{"example", "default"}[ndChoice(2, "where")]
	m := "  M: {minProperties: " + vPlace(mn) + "}\n"
	n := "  N: {type: M, properties: {\"n?\": N}}\n"
	v, want := "{}", vAnd(mn <= 0, true)
	for i, d := 0, ndChoice(3, "depth"); i < d; i++ {
		c := uint64(1)
		v = "{n: " + v
		if ndBool("b") {
			v += ", b: 1"
			c++
		}
		v += "}"
		want = vAnd(want, mn <= c)
	}
	o := []string{"  O: {type: N, " + where + ": " + v + "}\n", "  O: {properties: {\"x?\": {type: N, " + where + ": " + v + "}}}\n", "  O: {type: \"N[]\", " + where + ": [" + v + "]}\n"}[ndChoice(3, "holder")]
	doc := "types:\n" + []string{m + n + o, o + n + m, n + o + m}[ndChoice(3, "order")]
	opts := []ParseOpt{OptWithValidate()}
	if ndBool("unwrap first") {
		opts = append(opts, OptWithUnwrap())
	}
	_, err := vLib(doc, opts...)
	vAssert((err == nil) == want, "a value of a recursive type is judged at every depth")
}

// VH_C13_company: a reference to the type itself among other members of the type.
func VH_C13_company() {
	before, pats := ndChoice(4, "before"), ndChoice(3, "patterns")
	after := (before + pats) % 3
	ref := []string{"T", "M", "N"}[ndChoice(3, "by")]
	M := "  M: T\n  N:\n    type: object\n    properties:\n      a1?: string\n      x?: T\n"
	site := ndChoice(12, "site")
	// how a value of T is put below the site, and whether the site is a key of the object
	wrap := func(v any) any { return c13Obj{"x": v} }
	list := func(v any) any { return c13Obj{"x": []any{v}} }
	at := ""
	switch site {
	case 0:
		at = "      x?: " + ref + "\n"
	case 1:
		at = "      /^x/: " + ref + "\n"
	case 2:
		at = "      x?: " + ref + "[]\n"
		wrap = list
	case 3:
		at = "      x?: nil | " + ref + " | string[]\n"
	case 4:
		at = "      x?:\n        type: " + ref + "\n        description: d\n"
	case 5:
		at = "      /^x/:\n        type: array\n        minItems: 1\n        items: nil | " + ref + "\n"
		wrap = list
	case 6:
		at = "      x?:\n        type: object\n        properties:\n          k: string\n          x?: integer | " + ref + "\n          l?: string\n"
		wrap = func(v any) any { return c13Obj{"x": c13Obj{"k": "s", "x": v}} }
	case 7:
		at = "      x?:\n        properties:\n          k?: string\n          l?: string\n          /^x/: " + ref + "\n          /^y/: string\n"
		wrap = func(v any) any { return c13Obj{"x": c13Obj{"xx": v}} }
	case 8:
		at = "      x?: (" + ref + " | string)[]\n"
		wrap = list
	case 9:
		at = "      x?: U\n"
		M += "  U: string[] | nil | V\n  V: integer | " + ref + "\n"
	case 10:
		at = "      x?: L\n"
		M += "  L:\n    type: array\n    items: LL\n  LL:\n    type: " + ref + "\n    description: l\n"
		wrap = list
	case 11:
		at = "      x?:\n        type: any\n        facets:\n          f1?: string\n          f2?: " + ref + "\n          f3?: string\n"
	}
	T := "  T:\n    type: object\n    properties:\n"
	for i := 0; i < before; i++ {
		T += "      a" + string(rune('1'+i)) + "?: string\n"
	}
	lo, x := ndInt("lo"), ndInt("x")
	T += at + "      v?:\n        type: integer\n        minimum: " + vPlace(lo) + "\n"
	for i := 0; i < after; i++ {
		T += "      z" + string(rune('1'+i)) + "?: string\n"
	}
	for i := 0; i < pats; i++ {
		T += "      /^q" + string(rune('1'+i)) + "/: string\n"
	}
	doc := "types:\n" + T + M
	if ndChoice(2, "order") == 1 {
		doc = "types:\n" + M + T
	}
	opts := []ParseOpt{OptWithUnwrap()}
	if ndChoice(2, "validate") == 1 {
		opts = append(opts, OptWithValidate())
	}
	r, err := vLib(doc, opts...)
	vAssert(err == nil, "a type that refers to itself below is accepted")
	b := vGet(r, "T")
	vAssert(c13Acyclic(b, map[*BaseShape]bool{}), "a traversal that stops at recursive shapes ends")
	down := func(v any) any { // a value of the referred type
		if ref == "N" {
			return c13Obj{"x": v}
		}
		return v
	}
	bad := any(5)
	if site == 11 {
		vAssert(vOK(b, c13Obj{"x": 5}), "custom facets do not restrict values")
		return
	}
	if site == 6 || site == 9 {
		bad = true
	}
	vAssert(vOK(b, c13Obj{}), "a recursive type accepts exactly the values that match at every depth")
	v := any(c13Obj{})
	for i := 0; i < 3; i++ {
		vAssert(vOK(b, wrap(down(v))), "a recursive type accepts exactly the values that match at every depth")
		v = wrap(down(v))
	}
	v = bad
	for i := 0; i < 2; i++ {
		vAssert(!vOK(b, wrap(down(v))), "a recursive type accepts exactly the values that match at every depth")
		v = wrap(down(v))
	}
	vAssert(vOK(b, wrap(down(wrap(down(c13Obj{"v": x}))))) == (x >= lo), "a recursive type accepts exactly the values that match at every depth")
	for _, k := range []string{"a1", "z2", "q1"} {
		exists := map[string]bool{"a1": before > 0, "z2": after > 1, "q1": pats > 0}[k]
		vAssert(vOK(b, wrap(down(wrap(down(c13Obj{k: 5}))))) == !exists, "a recursive type accepts exactly the values that match at every depth")
	}
}
