package raml

//use: common.go
//bound: values nested to two levels out of 50 scalars (symbolic integers, strings and booleans, every YAML scalar style and tag) in flow or block maps and sequences, at 14 places of four kinds of file, as YAML, as JSON text and included from seven kinds of file beside a decoy of the same name
//assume: numbers of JSON text are IEEE doubles; JSON included below the top of a value may stay text; duplicate keys, merge keys, unknown tags and further documents of a file are left open

import (
	"math"
	"strings"
)

var _ = vReg("VH_C17_scalars", VH_C17_scalars)
var _ = vReg("VH_C17_nested", VH_C17_nested)
var _ = vReg("VH_C17_deep_T", VH_C17_deep_T)
var _ = vReg("VH_C17_json", VH_C17_json)
var _ = vReg("VH_C17_include", VH_C17_include)
var _ = vReg("VH_C17_include_inside", VH_C17_include_inside)
var _ = vReg("VH_C17_broken", VH_C17_broken)
var _ = vReg("VH_C17_members", VH_C17_members)
var _ = vReg("VH_C17_example_map", VH_C17_example_map)

// c17V is a value as written: inline, or (block) the lines below a key.
type c17V struct {
	text  string
	block []string
	want  any
}

// put renders "key: value" lines.
func (v c17V) put(key string) []string {
	if v.block == nil {
		return []string{key + ": " + v.text}
	}
	l := []string{key + ":" + v.text}
	for _, x := range v.block {
		l = append(l, "  "+x)
	}
	return l
}

var c17Fixed = []c17V{
	{"", nil, nil}, {"null", nil, nil}, {"~", nil, nil}, {"true", nil, true}, {"False", nil, false}, {"yes", nil, "yes"}, {"off", nil, "off"},
	{"1.5", nil, 1.5}, {"-0.25", nil, -0.25}, {"1e3", nil, 1000.0}, {".inf", nil, math.Inf(1)}, {"-.inf", nil, math.Inf(-1)}, {".nan", nil, math.NaN()},
	{"0x1F", nil, int64(31)}, {"0o17", nil, int64(15)}, {"18446744073709551615", nil, uint64(math.MaxUint64)}, {"9007199254740993", nil, int64(9007199254740993)}, {"-9223372036854775808", nil, int64(math.MinInt64)},
	{"word", nil, "word"}, {"two words", nil, "two words"}, {"\"5\"", nil, "5"}, {"'true'", nil, "true"}, {"\"null\"", nil, "null"}, {"''", nil, ""}, {"!!str 5", nil, "5"}, {"!!str null", nil, "null"}, {"!!float 5", nil, 5.0},
	{"2020-01-02", nil, "2020-01-02"}, {"2020-01-02T03:04:05Z", nil, "2020-01-02T03:04:05Z"}, {"2020-01-02 03:04:05", nil, "2020-01-02 03:04:05"}, {"2020-01-01T00:00:00Z", nil, "2020-01-01T00:00:00Z"}, {"2020-01-01 00:00:00", nil, "2020-01-01 00:00:00"}, {"2020-01-01T00:00:00+02:00", nil, "2020-01-01T00:00:00+02:00"}, {"'2020-01-02'", nil, "2020-01-02"}, {"12:30:00", nil, "12:30:00"},
	{"'it''s'", nil, "it's"}, {"\"a\\tb\\u00e9\"", nil, "a\tb\u00e9"}, {"\"[1]\"", nil, "[1]"}, {"' {}'", nil, " {}"}, {"v1.2", nil, "v1.2"}, {"a | b", nil, "a | b"}, {"&x word", nil, "word"},
	{" |", []string{"one", " two", "", "three"}, "one\n two\n\nthree\n"}, {" >-", []string{"one", "two", "", "three"}, "one two\nthree"}, {" |+", []string{"5", ""}, "5\n\n"},
}

// c17Leaf is a scalar; flow: one that can stand in a flow collection.
func c17Leaf(flow bool) c17V {
	n := len(c17Fixed)
	if flow {
		n -= 3
	}
	switch i := ndChoice(n+4, "leaf"); i {
	case n:
		x := ndInt("x")
		return c17V{vPlace(x), nil, x}
	case n + 1:
		s := ndAtom(4)
		return c17V{vPlace(s), nil, s}
	case n + 2:
		x := ndBool("x")
		return c17V{vPlace(x), nil, x}
	case n + 3:
		s := ndAtom(4)
		return c17V{vPlace("p" + s + " q"), nil, "p" + s + " q"}
	default:
		v := c17Fixed[i]
		if flow && v.text == "" {
			v.text = "null"
		}
		return v
	}
}

var c17Keys = [][2]string{{"a", "a"}, {"value", "value"}, {"\"5\"", "5"}, {"5", "5"}, {"true", "true"}, {"\"\"", ""}, {"a b", "a b"}, {"2020-01-02", "2020-01-02"}, {"/x/", "/x/"}, {"\"a?\"", "a?"}, {"(n)", "(n)"}, {"type", "type"}, {"\" a \"", " a "}, {"\"\\t\"", "\t"}, {"'a/b.c'", "a/b.c"}, {"\"(n\"", "(n"}, {"1.0", "1.0"}, {"A", "A"}, {"\"\u00e9\"", "\u00e9"}, {"~", "~"}, {"0x1F", "0x1F"}}

// c17Some is a leaf out of few; the catalogue is that of VH_C17_scalars.
func c17Some() c17V {
	switch ndChoice(6, "some") {
	case 0:
		x := ndInt("y")
		return c17V{vPlace(x), nil, x}
	case 1:
		return c17V{"2020-01-02", nil, "2020-01-02"}
	case 2:
		return c17V{"null", nil, nil}
	case 3:
		return c17V{"'{\"a\": 1}'", nil, "{\"a\": 1}"}
	case 4:
		return c17V{"[]", nil, []any{}}
	}
	s := ndAtom(4)
	return c17V{vPlace(s), nil, s}
}

// c17Wrap puts values into a collection.
func c17Wrap(a, b c17V, key [2]string) c17V {
	switch ndChoice(5, "collection") {
	case 0:
		return c17V{"[" + a.text + ", " + b.text + "]", nil, []any{a.want, b.want}}
	case 1:
		return c17V{"{" + key[0] + ": " + a.text + ", z: " + b.text + "}", nil, map[string]any{key[1]: a.want, "z": b.want}}
	case 2:
		return c17V{"", []string{"z: " + b.text, key[0] + ": " + a.text}, map[string]any{key[1]: a.want, "z": b.want}}
	case 3:
		return c17V{"", []string{"- " + a.text, "-   " + b.text}, []any{a.want, b.want}}
	}
	return c17V{"", []string{"z:", "  - " + a.text, "  - k: " + b.text, "    l: [[]]"}, map[string]any{"z": []any{a.want, map[string]any{"k": b.want, "l": []any{[]any{}}}}}}
}

// c17Eq compares values; numbers by value.
func c17Eq(got, want any) bool {
	switch w := want.(type) {
	case nil:
		return got == nil
	case bool:
		g, ok := got.(bool)
		return ok && g == w
	case string:
		g, ok := got.(string)
		return ok && g == w
	case int64:
		switch g := got.(type) {
		case int:
			return int64(g) == w
		case int64:
			return g == w
		case uint64:
			return vAnd(w >= 0, g == uint64(w))
		case float64:
			return float64(w) == g
		}
		return false
	case uint64:
		g, ok := got.(uint64)
		return ok && g == w
	case float64:
		g, ok := got.(float64)
		return ok && vOr(g == w, vAnd(g != g, w != w))
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return false
		}
		all := true
		for i := range w {
			all = vAnd(all, c17Eq(g[i], w[i]))
		}
		return all
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok || len(g) != len(w) {
			return false
		}
		all := true
		for k, x := range w {
			y, has := g[k]
			all = vAnd(all, has, c17Eq(y, x))
		}
		return all
	}
	return false
}

const c17Places = 14

// c17Put writes the value at a place and reads it back from the parsed model.
func c17Put(v c17V, place int) (got any, found bool, err error) {
	ind := func(n int, l []string) string {
		s := ""
		for _, x := range l {
			if x != "" {
				s += strings.Repeat(" ", n) + x
			}
			s += "\n"
		}
		return s
	}
	doc, want := "annotationTypes:\n  N: any\n", func(*RAML) (*Node, bool) { return nil, false }
	typ := func(f func(b *BaseShape) *Node) func(*RAML) (*Node, bool) {
		return func(r *RAML) (*Node, bool) {
			b := vGet(r, "T")
			if b == nil {
				return nil, false
			}
			n := f(b)
			return n, n != nil
		}
	}
	anno := func(d interface {
		Get(string) (*DomainExtension, bool)
	}) (*Node, bool) {
		x, ok := d.Get("N")
		if !ok {
			return nil, false
		}
		return x.Extension, true
	}
	example := func(b *BaseShape) *Node {
		if b.Example == nil {
			return nil
		}
		return b.Example.Data
	}
	member := func(b *BaseShape) *Node {
		if b.Examples == nil {
			return nil
		}
		e, ok := b.Examples.Map.Get("m")
		if !ok {
			return nil
		}
		return e.Data
	}
	head := "types:\n  T:\n    type: any\n"
	switch place {
	case 0:
		doc += head + ind(4, v.put("example"))
		want = typ(example)
	case 1:
		doc += head + "    example:\n" + ind(6, v.put("value")) + "      displayName: d\n      strict: false\n"
		want = typ(example)
	case 2:
		doc += head + "    examples:\n      k: 1\n" + ind(6, v.put("m"))
		want = typ(member)
	case 3:
		doc += head + "    examples:\n      m:\n" + ind(8, v.put("value")) + "      k: 1\n"
		want = typ(member)
	case 4:
		doc += head + ind(4, v.put("default"))
		want = typ(func(b *BaseShape) *Node { return b.Default })
	case 5:
		doc += head + ind(4, v.put("(N)"))
		want = typ(func(b *BaseShape) *Node {
			n, _ := anno(b.CustomDomainProperties)
			return n
		})
	case 6:
		doc += ind(0, v.put("(N)")) + head
		want = func(r *RAML) (*Node, bool) { return anno(r.EntryPoint().(*Library).CustomDomainProperties) }
	case 7:
		doc += "types:\n  B:\n    type: any\n    facets:\n      f: any\n  T:\n    type: B\n" + ind(4, v.put("f"))
		want = typ(func(b *BaseShape) *Node {
			n, _ := b.CustomShapeFacets.Get("f")
			return n
		})
	case 8:
		doc += "types:\n  T:\n    properties:\n      p?:\n        type: any\n" + ind(8, v.put("default"))
		want = typ(func(b *BaseShape) *Node {
			p, ok := b.Shape.(*ObjectShape).Properties.Get("p")
			if !ok {
				return nil
			}
			return p.Base.Default
		})
	case 9:
		vFile("d/n.raml", "#%RAML 1.0 NamedExample\nk: 1\n"+ind(0, v.put("m")))
		doc += head + "    examples: !include d/n.raml\n"
		want = typ(member)
	case 10:
		vFile("d/t.raml", "#%RAML 1.0 DataType\ntype: any\n"+ind(0, v.put("example")))
		doc += "types:\n  T: !include d/t.raml\n"
		want = func(r *RAML) (*Node, bool) {
			d, ok := r.GetFragment(vDir() + "/d/t.raml").(*DataType)
			if !ok {
				return nil, false
			}
			n := example(d.Shape)
			return n, n != nil
		}
	case 11:
		vFile("d/l.raml", "#%RAML 1.0 Library\ntypes:\n  T:\n    type: any\n"+ind(4, v.put("default")))
		doc += "uses:\n  l: d/l.raml\n"
		want = func(r *RAML) (*Node, bool) {
			l, ok := r.EntryPoint().(*Library).Uses.Get("l")
			if !ok || l.Link == nil {
				return nil, false
			}
			b, ok := l.Link.Types.Get("T")
			if !ok || b.Default == nil {
				return nil, false
			}
			return b.Default, true
		}
	case 12:
		doc += head + "    example:\n      value: 1\n" + ind(6, v.put("(N)"))
		want = typ(func(b *BaseShape) *Node {
			n, _ := anno(b.Example.CustomDomainProperties)
			return n
		})
	case 13:
		doc += "types:\n  A: any\n  T:\n    type: array\n    items:\n      type: any\n" + ind(6, v.put("(N)")) + ind(6, []string{"description: |", "  text", ""})
		want = typ(func(b *BaseShape) *Node {
			n, _ := anno(b.Shape.(*ArrayShape).Items.CustomDomainProperties)
			return n
		})
	}
	var opts []ParseOpt
	switch ndChoice(3, "options") {
	case 1:
		opts = append(opts, OptWithUnwrap())
	case 2:
		opts = append(opts, OptWithValidate())
	}
	r, err := ParseFromString("#%RAML 1.0 Library\n"+doc, "lib.raml", vDir(), opts...)
	if err != nil {
		return nil, false, err
	}
	n, ok := want(r)
	if !ok || n == nil {
		return nil, false, nil
	}
	return n.Value, true, nil
}

func c17Check(v c17V, place int) {
	got, found, err := c17Put(v, place)
	if err != nil {
		vObs("error", err.Error())
	}
	vAssert(err == nil, "the document is accepted")
	vAssert(found, "the value is in the model")
	vAssert(c17Eq(got, v.want), "the value in the model is the one written")
	vReach("value read")
}

func VH_C17_scalars() {
	c17Check(c17Leaf(false), ndChoice(c17Places, "place"))
}

func VH_C17_nested() {
	place := ndChoice(c17Places, "place")
	k := c17Keys[ndChoice(len(c17Keys), "key")]
	if place < 4 || place == 9 || place == 10 {
		// a map with `value` is the explicit form of an example
		vAssume(k[1] != "value")
	}
	c17Check(c17Wrap(c17V{"x", nil, "x"}, c17Some(), k), place)
}

func VH_C17_deep_T() {
	place := ndChoice(c17Places, "place")
	var inner c17V
	switch ndChoice(2, "inner") {
	case 0:
		a := c17Leaf(true)
		inner = c17V{"[[" + a.text + "]]", nil, []any{[]any{a.want}}}
	case 1:
		a := c17Leaf(true)
		inner = c17V{"{value: {value: " + a.text + "}}", nil, map[string]any{"value": map[string]any{"value": a.want}}}
	}
	c17Check(c17Wrap(inner, c17Some(), [2]string{"k", "k"}), place)
}

// c17JSON is JSON text and its value.
func c17JSON() (string, any) {
	x, b, s := ndInt("j"), ndBool("b"), ndAtom(4)
	leaves := []string{vPlace(x), vPlace(b), vPlace(s), "null", "1.5", "1e2", "\"\\u00e9\\n\"", "[]", "{}", "[1, [null]]", "\"2020-01-02\"", "\"{\"", "9007199254740993"}
	values := []any{float64(x), b, s, nil, 1.5, 100.0, "\u00e9\n", []any{}, map[string]any{}, []any{1.0, []any{nil}}, "2020-01-02", "{", 9007199254740992.0}
	i := ndChoice(len(leaves), "json leaf")
	switch ndChoice(3, "json") {
	case 0:
		return "{\"k\": " + leaves[i] + "}", map[string]any{"k": values[i]}
	case 1:
		return "{ \"a b\" : [ " + leaves[i] + ", 2 ],\n  \"\": {\"value\": " + leaves[i] + "} }", map[string]any{"a b": []any{values[i], 2.0}, "": map[string]any{"value": values[i]}}
	}
	return "{}", map[string]any{}
}

func c17Text(s string) c17V {
	l := strings.Split(s, "\n")
	return c17V{" |-", l, s}
}

// VH_C17_json: text that begins with a brace is JSON.
func VH_C17_json() {
	j, want := c17JSON()
	v := c17Text(j)
	v.want = want
	c17Check(v, ndChoice(c17Places, "place"))
}

// VH_C17_include: an included file is read by its extension, relative to the file of the value.
func VH_C17_include() {
	place := ndChoice(c17Places, "place")
	ext := []string{".json", ".yaml", ".yml", ".txt", "", ".xml", ".yaml.txt"}[ndChoice(7, "extension")]
	var text string
	var want any
	switch ext {
	case ".json":
		switch ndChoice(4, "json file") {
		case 0:
			x := ndInt("f")
			text, want = " "+vPlace(x)+"\n", float64(x)
		case 1:
			text, want = "[1, \"{\"]", []any{1.0, "{"}
		case 2:
			s := ndAtom(4)
			text, want = vPlace(s), s
		default:
			text, want = c17JSON()
		}
	case ".yaml", ".yml":
		switch ndChoice(5, "yaml file") {
		case 0:
			x := ndInt("f")
			text, want = vPlace(x)+"\n", x
		case 1:
			a := c17Some()
			text, want = "- 1\n- {k: "+a.text+"}\n", []any{int64(1), map[string]any{"k": a.want}}
		case 2:
			text, want = "# comment\na:\n  value: 2020-01-02\n", map[string]any{"a": map[string]any{"value": "2020-01-02"}}
		case 3:
			text, want = "---\n{\"a\": 5}\n", map[string]any{"a": int64(5)}
		case 4:
			text, want = "'{\"a\": 5}'", "{\"a\": 5}"
		}
	default:
		text = []string{"", "text\n", "  5", "{\"a\": 1}", "a: 1\n", "<a/>\r\n", "\xff\x00\n", "#%RAML 1.0 DataType\n"}[ndChoice(8, "text file")]
		want = text
	}
	name, dir := "v"+ext, ""
	if place >= 9 && place <= 11 {
		dir = "d/"
	}
	decoy := map[string]string{".json": "\"decoy\"", "": "decoy"}[ext]
	if decoy == "" {
		decoy = "decoy"
	}
	path := name
	switch ndChoice(3, "path") {
	case 0:
		vFile(dir+name, text)
		vFile("x/"+name, decoy)
		if dir != "" {
			vFile(name, decoy)
		}
	case 1:
		vFile(dir+"s/"+name, text)
		vFile(dir+name, decoy)
		path = "./s/../s/" + name
	case 2:
		vFile("s/"+name, text)
		vFile(name, decoy)
		vFile("d/s/"+name, decoy)
		if dir != "" {
			path = "../s/" + name
		} else {
			vFile("s/s/"+name, decoy)
			path = "s/" + name
		}
		if dir == "" {
			vFile("d/"+name, decoy)
		}
	}
	c17Check(c17V{"!include " + path, nil, want}, place)
}

// VH_C17_include_inside: an include below the top of a value.
func VH_C17_include_inside() {
	place := ndChoice(c17Places, "place")
	dir := ""
	if place >= 9 && place <= 11 {
		dir = "d/"
	}
	x, s := ndInt("f"), ndAtom(4)
	vFile(dir+"s/v.yaml", "k: ["+vPlace(x)+", "+vPlace(s)+", 2020-01-02]\n")
	vFile(dir+"s/v.txt", "5\n")
	vFile(dir+"v.yaml", "decoy")
	vFile("x/v.txt", "decoy")
	vFile(dir+"s/s/v.txt", "decoy")
	vFile(dir+"v.txt", "six")
	vFile(dir+"s/o.yaml", "- !include v.txt\n")
	vFile(dir+"s/oo.yaml", "- !include o.yaml\n")
	vFile(dir+"o.yaml", "decoy")
	vFile(dir+"s/self.yaml", "- !include self.yaml\n")
	vFile(dir+"s/self2.yaml", "!include self2.yaml\n")
	in, path, mayFail := any(nil), "", false
	switch ndChoice(6, "file") {
	case 0:
		path, in = "s/v.yaml", map[string]any{"k": []any{x, s, "2020-01-02"}}
	case 1:
		path, in = "s/v.txt", "5\n"
	case 2:
		path, in = "s/../v.txt", "six"
	case 3:
		path, in, mayFail = "s/o.yaml", []any{"5\n"}, true
	case 4:
		path, in, mayFail = "s/oo.yaml", []any{[]any{"5\n"}}, true
	case 5:
		path, mayFail = []string{"s/self.yaml", "s/self2.yaml"}[ndChoice(2, "self")], true
		in = func() {} // no value at all
	}
	v := c17V{"[1, !include " + path + "]", nil, []any{int64(1), in}}
	switch ndChoice(3, "where") {
	case 0:
		v = c17V{"", []string{"k: !include " + path, "l: 2020-01-02"}, map[string]any{"k": in, "l": "2020-01-02"}}
	case 1:
		v = c17V{"!include " + path, nil, in}
	}
	if !mayFail {
		c17Check(v, place)
		return
	}
	got, found, err := c17Put(v, place)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(found, "the value is in the model")
	vAssert(c17Eq(got, v.want), "the value in the model is the one written")
}

// VH_C17_broken: what cannot be read is an error.
func VH_C17_broken() {
	place := ndChoice(c17Places, "place")
	vFile("b.json", "{\"a\": 1} x")
	vFile("c.json", "{\"a\": ")
	vFile("e.json", "")
	vFile("f.json", "[1] [2]")
	vFile("g.json", "{\"a\": 1,}")
	vFile("b.yaml", "a: [1\n")
	vFile("c.yaml", "a: 1\n  b: 2\n")
	vFile("d.yaml", "a: &x 1\nb: *x\n")
	path := ""
	if place >= 9 && place <= 11 {
		path = "../"
	}
	bad := []string{
		"!include " + path + "none.json", "!include " + path + "none.yaml", "!include " + path + "none.txt", "!include " + path + "none", "!include " + path + "b.json", "!include " + path + "c.json", "!include " + path + "e.json",
		"!include " + path + "f.json", "!include " + path + "g.json", "!include " + path + "b.yaml", "!include " + path + "c.yaml", "!include " + path + "d.yaml", "[!include " + path + "none.txt]", "{a: {b: !include " + path + "none.yaml}}", "[!include " + path + "b.yaml]", "[[!include " + path + "d.yaml]]",
		"'{'", "'{\"a\": 1} x'", "'{a: 1}'", "'{\"a\": 1,}'", "'{\"a\": 1} {}'", "[{[a]: 1}]", "{{a: b}: 1, [c]: 2}", "!!int word", "[!!float word]", "!!bool 7",
	}
	v := c17V{bad[ndChoice(len(bad), "text")], nil, nil}
	_, _, err := c17Put(v, place)
	vAssert(err != nil, "a value that cannot be read is an error")
	vReach("refused")
}

// VH_C17_members: enum members and discriminator values.
func VH_C17_members() {
	x, s := ndInt("x"), ndAtom(4)
	type m struct {
		typ  string
		text string
		want any
	}
	ms := []m{
		{"string", vPlace(s), s}, {"string", "word", "word"}, {"string", "2020-01-02", "2020-01-02"}, {"string", "'5'", "5"}, {"string", "''", ""}, {"string", "!!str true", "true"}, {"string", "yes", "yes"}, {"string", "12:30:00", "12:30:00"},
		{"integer", vPlace(x), x}, {"integer", "0x1F", int64(31)}, {"integer", "-0", int64(0)}, {"number", vPlace(x), x}, {"number", "1.5", 1.5}, {"number", "1e2", 100.0}, {"number", "9007199254740993", int64(9007199254740993)},
		{"boolean", "true", true}, {"boolean", "False", false},
	}
	i := ndChoice(len(ms), "member")
	c := ms[i]
	if ndBool("discriminator") {
		r, err := vLib("types:\n  T:\n    discriminator: k\n    discriminatorValue: " + c.text + "\n    properties:\n      k: " + c.typ + "\n")
		vAssert(err == nil, "the document is accepted")
		vAssert(c17Eq(vGet(r, "T").Shape.(*ObjectShape).DiscriminatorValue, c.want), "the discriminator value is the one written")
		return
	}
	first := map[string]string{"string": "qqqqqq", "integer": "7", "number": "7.5", "boolean": "true"}[c.typ]
	doc := "types:\n  T:\n    type: " + c.typ + "\n"
	if ndBool("block") {
		doc += "    enum:\n      - " + first + "\n      - " + c.text + "\n"
	} else {
		doc += "    enum: [" + first + ", " + c.text + "]\n"
	}
	var opts []ParseOpt
	if ndBool("unwrap") {
		opts = append(opts, OptWithUnwrap())
	}
	r, err := vLib(doc, opts...)
	vAssert(err == nil, "the document is accepted")
	var e Nodes
	switch t := vGet(r, "T").Shape.(type) {
	case *StringShape:
		e = t.Enum
	case *IntegerShape:
		e = t.Enum
	case *NumberShape:
		e = t.Enum
	case *BooleanShape:
		e = t.Enum
	}
	vAssert(len(e) == 2, "every member is there")
	vAssert(c17Eq(e[1].Value, c.want), "the member is the one written")
	vReach("member read")
}

// VH_C17_example_map: a map is the explicit form of an example exactly when it has the key `value`.
func VH_C17_example_map() {
	x := ndInt("x")
	keys := []string{"strict", "displayName", "description", "(N)", "a", "Value", "values"}
	i := ndChoice(len(keys)+1, "other")
	other := []string{"false", "shown", "text", "5", "1", "2", "3"}
	v := c17V{"", nil, map[string]any{}}
	w := v.want.(map[string]any)
	if i < len(keys) {
		v.block = append(v.block, keys[i]+": "+other[i])
		switch i {
		case 0:
			w[keys[i]] = false
		case 1, 2:
			w[keys[i]] = other[i]
		default:
			w[keys[i]] = int64(other[i][0] - '0')
		}
	}
	at := ndChoice(4, "value")
	var want any = v.want
	switch at {
	case 0:
		v.block = append([]string{"value: " + vPlace(x)}, v.block...)
		want = x
	case 1:
		v.block = append(v.block, "value: {value: "+vPlace(x)+"}")
		want = map[string]any{"value": x}
	case 2:
		v.block = append(v.block, "value:")
		want = nil
	case 3:
		v.block = append(v.block, "k: {value: "+vPlace(x)+"}")
		w["k"] = map[string]any{"value": x}
	}
	v.want = want
	n := 4
	if i == 3 {
		n = 2 // an annotation in a data type or named example file has no library to refer to
	}
	c17Check(v, []int{0, 2, 10, 9}[ndChoice(n, "place")])
}
