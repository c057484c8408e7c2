package raml

//use: common.go place.go
//bound: every sequence of up to four (thorough: five) of the tokens A, B, l.C, nil, (, ), [], ? and |; every tree of operators of depth two (thorough: three) over four names with any redundant parentheses and spacing; 14 expressions at 20 places; every printable ASCII character (and some others) inserted at or put in the place of any position of five expressions; 23 names; 14 expressions with a custom facet beside them; 35 references over three libraries in eight expressions at four places; unions of up to 33 members, with one that matters at any position
//assume: dots surrounded by spaces are left open, and `X[][]` outside of VH_C20_twice; fewer than four parentheses (the time the parser generator needs grows sixfold with each nested pair, see C10)

import "strings"

var _ = vReg("VH_C20_tokens", VH_C20_tokens)
var _ = vReg("VH_C20_tokens_T", VH_C20_tokens_T)
var _ = vReg("VH_C20_trees", VH_C20_trees)
var _ = vReg("VH_C20_trees_T", VH_C20_trees_T)
var _ = vReg("VH_C20_twice", VH_C20_twice)
var _ = vReg("VH_C20_places", VH_C20_places)
var _ = vReg("VH_C20_facets", VH_C20_facets)
var _ = vReg("VH_C20_chars", VH_C20_chars)
var _ = vReg("VH_C20_names", VH_C20_names)
var _ = vReg("VH_C20_custom", VH_C20_custom)
var _ = vReg("VH_C20_scope", VH_C20_scope)
var _ = vReg("VH_C20_wide", VH_C20_wide)

// c20E is an expression: a name, an array, an optional type or a union.
type c20E struct {
	op   byte
	name string
	kids []*c20E
}

// c20P reads an expression; open is set for forms whose meaning is left open.
type c20P struct {
	toks []string
	at   int
	bad  bool
	open bool
}

func (p *c20P) peek() string {
	if p.at < len(p.toks) {
		return p.toks[p.at]
	}
	return ""
}

func (p *c20P) expr() *c20E {
	l := []*c20E{p.post()}
	for p.peek() == "|" && !p.bad {
		p.at++
		l = append(l, p.post())
	}
	if len(l) == 1 {
		return l[0]
	}
	return &c20E{op: '|', kids: l}
}

func (p *c20P) post() *c20E {
	e := p.atom()
	for n := 0; !p.bad && (p.peek() == "[]" || p.peek() == "?"); n++ {
		if n > 0 {
			p.open = true
		}
		e = &c20E{op: p.peek()[0], kids: []*c20E{e}}
		p.at++
	}
	return e
}

func (p *c20P) atom() *c20E {
	t := p.peek()
	p.at++
	switch t {
	case "(":
		e := p.expr()
		if p.peek() != ")" {
			p.bad = true
		}
		p.at++
		return e
	case "", ")", "[]", "?", "|":
		p.bad = true
		return nil
	}
	return &c20E{op: 'n', name: t}
}

func c20Word(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '-' || c == '.'
}

// c20Read reads the text of an expression; nil if it is not well formed.
func c20Read(s string) (e *c20E, open bool) {
	p := &c20P{}
	for i := 0; i < len(s); {
		j := i + 1
		switch {
		case s[i] == ' ' || s[i] == '\t':
			i = j
			continue
		case c20Word(s[i]):
			for j < len(s) && c20Word(s[j]) {
				j++
			}
		case s[i] == '[' && j < len(s) && s[j] == ']':
			j++
		case strings.IndexByte("()?|", s[i]) < 0:
			return nil, false
		}
		p.toks = append(p.toks, s[i:j])
		i = j
	}
	e = p.expr()
	if p.bad || p.at != len(p.toks) {
		return nil, false
	}
	return e, p.open
}

// c20Known is the meaning of the names in scope: a kind and whether the minimum applies.
func c20Known(n string) string {
	switch n {
	case "A":
		return "least"
	case "B":
		return "string"
	case "l.C":
		return "boolean"
	case "l.A", "l.B":
		return "nil"
	case "string", "integer", "nil", "boolean", "number", "any", "array", "object":
		return n
	}
	return ""
}

func (e *c20E) known() bool {
	if e.op == 'n' {
		return c20Known(e.name) != ""
	}
	for _, k := range e.kids {
		if !k.known() {
			return false
		}
	}
	return true
}

// accepts is the oracle: the values of an expression.
func (e *c20E) accepts(v any, lo int64) bool {
	switch e.op {
	case '[':
		l, ok := v.([]any)
		if !ok {
			return false
		}
		r := true
		for _, x := range l {
			r = vAnd(r, e.kids[0].accepts(x, lo))
		}
		return r
	case '?':
		return v == nil || e.kids[0].accepts(v, lo)
	case '|':
		r := false
		for _, k := range e.kids {
			r = vOr(r, k.accepts(v, lo))
		}
		return r
	}
	switch x := v.(type) {
	case nil:
		k := c20Known(e.name)
		return k == "nil" || k == "any"
	case int64:
		switch c20Known(e.name) {
		case "least":
			return x >= lo
		case "integer", "number", "any":
			return true
		}
	case string:
		k := c20Known(e.name)
		return k == "string" || k == "any"
	case bool:
		k := c20Known(e.name)
		return k == "boolean" || k == "any"
	case []any:
		k := c20Known(e.name)
		return k == "array" || k == "any"
	case map[string]any:
		k := c20Known(e.name)
		return k == "object" || k == "any"
	}
	return false
}

// same compares the structure of an unwrapped type with an expression.
func (e *c20E) same(b *BaseShape) bool {
	if b == nil {
		return false
	}
	switch e.op {
	case '[':
		a, ok := b.Shape.(*ArrayShape)
		return ok && e.kids[0].same(a.Items)
	case '?':
		u, ok := b.Shape.(*UnionShape)
		return ok && len(u.AnyOf) == 2 && e.kids[0].same(u.AnyOf[0]) && u.AnyOf[1].Type == TypeNil
	case '|':
		u, ok := b.Shape.(*UnionShape)
		if !ok || len(u.AnyOf) != len(e.kids) {
			return false
		}
		for i, k := range e.kids {
			if !k.same(u.AnyOf[i]) {
				return false
			}
		}
		return true
	}
	k := c20Known(e.name)
	if k == "least" {
		k = "integer"
	}
	return b.Type == k
}

func c20Lib(decl string, lo int64) string {
	vFile("l.raml", "#%RAML 1.0 Library\ntypes:\n  C: boolean\n  A: nil\n  B: nil\n")
	return "uses: {l: l.raml}\ntypes:\n  T: " + decl + "\n  A: {type: integer, minimum: " + vPlace(lo) + "}\n  B: string\n"
}

func c20Values(x int64) []any {
	return []any{nil, x, "s", true, map[string]any{}, []any{}, []any{x}, []any{nil}, []any{"s"}, []any{false, x}, []any{[]any{}}, []any{[]any{x}}, []any{[]any{"s"}, nil}}
}

// c20Judge checks the meaning of the text of an expression.
func c20Judge(text string) {
	e, open := c20Read(text)
	vAssume(strings.Count(text, "(") < 4)
	lo, x := ndInt("lo"), ndInt("x")
	r, err := ParseFromString("#%RAML 1.0 Library\n"+c20Lib("\""+text+"\"", lo), "lib.raml", vDir(), OptWithUnwrap())
	if e == nil || !e.known() {
		vAssert(err != nil, "a malformed expression or an unknown name is an error")
		return
	}
	if open {
		vAssume(err == nil)
	}
	vAssert(err == nil, "a well formed expression is accepted")
	b := vGet(r, "T")
	vAssert(e.same(b), "an expression denotes the type it describes")
	for _, v := range c20Values(x) {
		vAssert(vOK(b, v) == e.accepts(v, lo), "an expression accepts exactly the values it describes")
	}
}

func c20Tokens(n int, toks []string) {
	text := ""
	for i := 0; i < n; i++ {
		t := toks[ndChoice(len(toks), "token")]
		if text != "" && c20Word(t[0]) && c20Word(text[len(text)-1]) {
			text += " "
		}
		text += t
	}
	c20Judge(text)
}

// VH_C20_tokens: every short sequence of tokens.
func VH_C20_tokens() {
	c20Tokens(1+ndChoice(4, "length"), []string{"A", "B", "l.C", "nil", "(", ")", "[]", "?", "|"})
}

func VH_C20_tokens_T() { c20Tokens(5, []string{"A", "l.C", "(", ")", "[]", "?", "|"}) }

var c20Names = []string{"A", "B", "l.C", "nil", "string", "integer", "boolean", "number", "any", "array", "object"}

// c20Tree is a tree of operators and its text.
func c20Tree(depth int) (*c20E, string) {
	ops := 5
	if depth == 0 {
		ops = 1
	}
	pad := ""
	switch ndChoice(ops, "operator") {
	case 1:
		e, s := c20Tree(depth - 1)
		return &c20E{op: '[', kids: []*c20E{e}}, c20Group(e, s, true) + "[]"
	case 2:
		e, s := c20Tree(depth - 1)
		return &c20E{op: '?', kids: []*c20E{e}}, c20Group(e, s, true) + "?"
	case 3, 4:
		if depth%2 == 1 {
			pad = " "
		}
		e, s := c20Tree(depth - 1)
		name := c20Names[ndChoice(3, "name")]
		f, t := &c20E{op: 'n', name: name}, name
		if depth > 2 {
			f, t = c20Tree(1)
		}
		if ndChoice(2, "side") == 1 {
			e, s, f, t = f, t, e, s
		}
		return &c20E{op: '|', kids: []*c20E{e, f}}, c20Group(e, s, false) + pad + "|" + pad + c20Group(f, t, false)
	}
	n := c20Names[ndChoice(4, "name")]
	return &c20E{op: 'n', name: n}, n
}

func c20Group(e *c20E, s string, post bool) string {
	if e.op != 'n' && post || e.op == '|' {
		return "(" + s + ")"
	}
	return s
}

// VH_C20_twice: postfix operators after each other.
func VH_C20_twice() {
	texts := []string{"A[][]", "A[]?", "A?[]", "(A)[][]", "l.C[][]", "A | B[][]", "A[][][]", "(A[][])?"}
	text := texts[ndChoice(len(texts), "expression")]
	e, _ := c20Read(text)
	lo, x := ndInt("lo"), ndInt("x")
	r, err := ParseFromString("#%RAML 1.0 Library\n"+c20Lib("\""+text+"\"", lo), "lib.raml", vDir(), OptWithUnwrap())
	vAssert(err == nil, "postfix operators can be repeated")
	if err != nil {
		return
	}
	b := vGet(r, "T")
	vAssert(e.same(b), "an expression denotes the type it describes")
	for _, v := range c20Values(x) {
		vAssert(vOK(b, v) == e.accepts(v, lo), "an expression accepts exactly the values it describes")
	}
}

// VH_C20_trees: every tree of operators.
func VH_C20_trees() { c20Trees(2) }

func VH_C20_trees_T() { c20Trees(3) }

func c20Trees(depth int) {
	e, s := c20Tree(depth)
	vAssume(strings.Count(s, "(") < 3)
	if strings.Count(s, "(") < 2 && ndChoice(2, "outside") == 1 {
		s = "( " + s + ")"
	}
	f, open := c20Read(s)
	vAssert(f != nil && !open, "the text of a tree is well formed")
	vAssert(c20Text(e) == c20Text(f), "the text of a tree is read as the tree")
	c20Judge(s)
}

func c20Text(e *c20E) string {
	s := string(e.op) + e.name
	for _, k := range e.kids {
		s += "(" + c20Text(k) + ")"
	}
	return s
}

var c20Some = []string{"A", "A[]", "A?", "A | B", "A | B | nil", "(A | B)[]", "(A[])?", "(A?)[]", "A | B[]", "(A)", "l.C | A", "(l.C)[]", "nil | (A | B)", "integer | string"}

// VH_C20_places: wherever an expression is written.
func VH_C20_places() {
	text := c20Some[ndChoice(len(c20Some), "expression")]
	e, _ := c20Read(text)
	lo, x := ndInt("lo"), ndInt("x")
	head := "uses: {l: l.raml}\ntypes:\n  A: {type: integer, minimum: " + vPlace(lo) + "}\n  B: string\n"
	vFile("l.raml", "#%RAML 1.0 Library\ntypes:\n  C: boolean\n  A: nil\n  B: nil\n")
	q := "\"" + text + "\""
	wrap := func(v any) any { return v }
	in := func(r *RAML) *BaseShape { return vGet(r, "T") }
	key := func(v any) any { return map[string]any{"a": v} }
	prop := func(r *RAML) *BaseShape {
		p, _ := vGet(r, "T").Shape.(*ObjectShape).Properties.Get("a")
		return p.Base
	}
	facet := false
	switch ndChoice(20, "place") {
	case 0:
		head += "  T: " + q + "\n"
	case 1:
		head += "  T: {type: " + q + "}\n"
	case 2:
		head += "  T: [" + q + "]\n"
	case 3:
		head += "  T: {type: [" + q + "]}\n"
	case 4:
		head += "  T: {type: " + q + ", description: d}\n"
	case 5:
		head += "  T: {properties: {a: " + q + "}}\n"
		wrap, in = key, prop
	case 6:
		head += "  T: {properties: {\"a?\": {type: " + q + "}}}\n"
		wrap, in = key, prop
	case 7:
		head += "  T: {properties: {/a/: " + q + "}}\n"
		wrap = key
		in = func(r *RAML) *BaseShape {
			return vGet(r, "T").Shape.(*ObjectShape).PatternProperties.Oldest().Value.Base
		}
	case 8:
		head += "  T: {type: array, items: " + q + "}\n"
		wrap = func(v any) any { return []any{v} }
		in = func(r *RAML) *BaseShape { return vGet(r, "T").Shape.(*ArrayShape).Items }
	case 9:
		head += "  T: {type: array, items: {type: " + q + "}}\n"
		wrap = func(v any) any { return []any{v} }
		in = func(r *RAML) *BaseShape { return vGet(r, "T").Shape.(*ArrayShape).Items }
	case 10:
		head += "  T: S\n  S: " + q + "\n"
	case 11:
		head += "  T: {type: S, description: d}\n  S: " + q + "\n"
	case 12:
		head = "  S: " + q + "\n" + "  T: S\n"
		head = "uses: {l: l.raml}\ntypes:\n" + head + "  B: string\n  A: {type: integer, minimum: " + vPlace(lo) + "}\n"
	case 13:
		vFile("m.raml", "#%RAML 1.0 Library\n"+head+"  S: "+q+"\n")
		head = "uses: {m: m.raml}\ntypes:\n  A: nil\n  B: boolean\n  T: m.S\n"
	case 14:
		vFile("m.raml", "#%RAML 1.0 Library\n"+head+"  S: "+q+"\n")
		head = "uses: {m: m.raml}\ntypes:\n  A: nil\n  B: boolean\n  T: (m.S)[]\n"
		wrap = func(v any) any { return []any{v} }
		in = func(r *RAML) *BaseShape { return vGet(r, "T").Shape.(*ArrayShape).Items }
	case 15:
		vFile("m.raml", "#%RAML 1.0 Library\n"+head)
		vFile("d.raml", "#%RAML 1.0 DataType\nuses: {m: m.raml, l: l.raml}\ntype: \""+strings.ReplaceAll(strings.ReplaceAll(text, "A", "m.A"), "B", "m.B")+"\"\n")
		head += "  T: !include d.raml\n"
	case 16:
		head += "  T: {type: P, properties: {a: " + q + "}}\n  P: {properties: {a: any}}\n"
		wrap, in = key, prop
	case 17:
		head += "  T: {type: P, properties: {a: " + q + "}}\n  P: {properties: {\"a?\": " + q + "}}\n"
		wrap, in = key, prop
	case 18:
		head = strings.Replace(head, "types:\n", "annotationTypes:\n  T: "+q+"\ntypes:\n", 1)
		in = func(r *RAML) *BaseShape {
			b, _ := r.EntryPoint().(*Library).AnnotationTypes.Get("T")
			return b
		}
	case 19:
		facet = true
		head += "  T: {type: object, facets: {a: " + q + "}}\n"
		in = func(r *RAML) *BaseShape {
			f, _ := vGet(r, "T").CustomShapeFacetDefinitions.Get("a")
			return f.Base
		}
	}
	r, err := ParseFromString("#%RAML 1.0 Library\n"+head, "lib.raml", vDir(), OptWithUnwrap())
	vAssert(err == nil, "an expression is accepted at every place")
	if err != nil {
		return
	}
	b := in(r)
	vAssert(e.same(b), "an expression denotes the same type at every place")
	whole := vGet(r, "T")
	for _, v := range c20Values(x) {
		want := e.accepts(v, lo)
		vAssert(vOK(b, v) == want, "an expression accepts the same values at every place")
		if whole != nil && whole != b && !facet {
			vAssert(vOK(whole, wrap(v)) == want, "a type accepts the values of the expression in it")
		}
	}
}

// VH_C20_facets: facets beside an expression belong to the whole expression.
func VH_C20_facets() {
	n, lo, x := ndUint("n"), ndInt("lo"), ndInt("x")
	tests := []struct {
		text, facet string
		extra       func(v any) bool
	}{
		{"A[]", "minItems: " + vPlace(n), func(v any) bool { return uint64(len(v.([]any))) >= n }},
		{"A[]", "maxItems: " + vPlace(n), func(v any) bool { return uint64(len(v.([]any))) <= n }},
		{"(A | B)[]", "maxItems: " + vPlace(n), func(v any) bool { return uint64(len(v.([]any))) <= n }},
		{"(A[])[]", "minItems: " + vPlace(n), func(v any) bool { return uint64(len(v.([]any))) >= n }},
		{"(A?)[]", "uniqueItems: true", func(v any) bool { return true }},
		{"(A)", "maximum: 9223372036854775807", func(v any) bool { return true }},
		{"(B)", "maxLength: " + vPlace(n), func(v any) bool { return uint64(len(v.(string))) <= n }},
		{"A | B", "description: d", func(v any) bool { return true }},
		{"(l.C)[]", "maxItems: " + vPlace(n), func(v any) bool { return uint64(len(v.([]any))) <= n }},
	}
	t := tests[ndChoice(len(tests), "expression")]
	e, _ := c20Read(t.text)
	sub := ndChoice(3, "where")
	decl := "{type: \"" + t.text + "\", " + t.facet + "}"
	if sub == 1 {
		decl = "{type: S, " + t.facet + "}\n  S: \"" + t.text + "\""
	} else if sub == 2 {
		decl = "\"(S)[]\"\n  S: {type: \"" + t.text + "\", " + t.facet + "}"
	}
	r, err := ParseFromString("#%RAML 1.0 Library\n"+c20Lib(decl, lo), "lib.raml", vDir(), OptWithUnwrap())
	vAssert(err == nil, "facets can stand beside an expression")
	if err != nil {
		return
	}
	b := vGet(r, "T")
	for _, v := range c20Values(x) {
		want := e.accepts(v, lo)
		if want {
			want = vAnd(want, t.extra(v))
		}
		if sub == 2 {
			v = []any{v}
		}
		vAssert(vOK(b, v) == want, "facets beside an expression belong to the whole")
	}
}

// VH_C20_chars: other characters make an expression an error.
func VH_C20_chars() {
	text := []string{"A|B", "(A)[]", "A?", "l.C | A", "nil"}[ndChoice(5, "expression")]
	at := ndChoice(len(text)+1, "where")
	var c string
	if n := ndChoice(95+3, "character"); n < 95 {
		c = string(rune(' ' + n))
	} else {
		c = []string{"\t", "é", "\u00a0"}[n-95]
	}
	rest := text[at:]
	if at < len(text) && ndChoice(2, "replace") == 1 {
		rest = text[at+1:]
	}
	text = text[:at] + c + rest
	switch c {
	case "\"", "\\":
		text = strings.Replace(text, c, "\\"+c, 1)
		lo := ndInt("lo")
		_, err := ParseFromString("#%RAML 1.0 Library\n"+c20Lib("\""+text+"\"", lo), "lib.raml", vDir())
		vAssert(err != nil, "a malformed expression or an unknown name is an error")
		return
	case ".":
		e, _ := c20Read(text)
		vAssume(e == nil || !strings.Contains(text, " "))
	case "!":
		vAssume(text[0] != '!')
	case "{", "[", "<":
	}
	// An included file, a JSON schema or an XML schema.
	vAssume(text[0] != '{' && text[0] != '[' && text[0] != '<')
	vAssume(strings.TrimSpace(text) != "" && c != "T")
	c20Judge(text)
}

// VH_C20_names: names that look like other tokens.
func VH_C20_names() {
	names := []string{"integer2", "nil-x", "time-only-x", "x-string", "date", "date-", "Integer", "STRING", "1", "12a", "_", "__a", "a-b", "a_b", "a.b", "a.b.c", "stringinteger", "nil.nil", "string_type", "x1", "unions", "anyA", "-"}
	i := ndChoice(len(names), "name")
	name := names[i]
	lo, x := ndInt("lo"), ndInt("x")
	text := []string{"N", "N[]", "N?", "(N)", "N | B", "B|N", "(N|nil)[]"}[ndChoice(7, "expression")]
	e, _ := c20Read(strings.ReplaceAll(text, "N", "A"))
	key := "\"" + name + "\""
	doc := "types:\n  " + key + ": {type: integer, minimum: " + vPlace(lo) + "}\n  B: string\n  T: \"" + strings.ReplaceAll(text, "N", name) + "\"\n"
	r, err := vLib(doc, OptWithUnwrap())
	vAssert(err == nil, "a declared name can be referred to")
	if err != nil {
		return
	}
	b := vGet(r, "T")
	vAssert(e.same(b), "an expression denotes the type it describes")
	for _, v := range c20Values(x) {
		vAssert(vOK(b, v) == e.accepts(v, lo), "an expression accepts exactly the values it describes")
	}
}

// VH_C20_custom: custom facets beside an expression belong to the whole as well.
func VH_C20_custom() {
	text := append([]string{"A?", "string?", "A[]", "string[]", "(A)", "(A?)[]", "(A[])?", "A | B", "(A | B)?", "(A | B)[]", "l.C?", "l.C", "string", "A"})[ndChoice(14, "expression")]
	e, _ := c20Read(text)
	lo, least, x, v := ndInt("lo"), ndInt("least"), ndInt("x"), ndInt("v")
	how := ndChoice(5, "how")
	doc, ok := "", true
	switch how {
	case 0: // no such facet
		doc, ok = "{type: \""+text+"\", f: "+vPlace(v)+"}", false
	case 1: // defined beside the expression
		doc = "{type: S, f: " + vPlace(v) + "}\n  S: {type: \"" + text + "\", facets: {f: {type: integer, minimum: " + vPlace(least) + "}}}"
		ok = v >= least
	case 2: // required, not given
		doc = "{type: S, description: d}\n  S: {type: \"" + text + "\", facets: {f: {type: integer, minimum: " + vPlace(least) + "}}}"
		ok = false
	case 3: // of another name
		doc = "{type: S, g: " + vPlace(v) + "}\n  S: {type: \"" + text + "\", facets: {\"f?\": integer}}"
		ok = false
	case 4: // optional, not given
		doc = "{type: S}\n  S: {type: \"" + text + "\", facets: {\"f?\": integer}}"
	}
	r, err := ParseFromString("#%RAML 1.0 Library\n"+c20Lib(doc, lo), "lib.raml", vDir(), OptWithUnwrap(), OptWithValidate())
	vAssert(vIff(err == nil, ok), "a custom facet beside an expression needs a definition and a value it allows")
	if err != nil {
		return
	}
	b := vGet(r, "T")
	for _, u := range c20Values(x) {
		vAssert(vOK(b, u) == e.accepts(u, lo), "a custom facet does not change the values of an expression")
	}
}

// VH_C20_scope: a name denotes what is declared under it, or nothing.
func VH_C20_scope() {
	refs := []struct {
		name, kind string
	}{
		{"A", "least"}, {"l.C", "boolean"}, {"l.A", "nil"}, {"m.D", "string"}, {"m.l", "boolean"}, {"l", "string"}, {"string", "string"},
		{"D", ""}, {"C", ""}, {"l.D", ""}, {"l.H", ""}, {"m.C", ""}, {"m.A", ""}, {"m", ""}, {"l.l", ""}, {"l.string", ""}, {"k.K", ""}, {"l.k.K", ""}, {"K", ""}, {"l.K", ""},
		{"x.A", ""}, {"l.N", ""}, {"N", ""}, {"lib.A", ""}, {"l.c", ""}, {"a", ""}, {"L.C", ""}, {"l.C.", ""}, {".A", ""}, {"l.", ""}, {"l..C", ""}, {".", ""}, {"l.m.D", ""}, {"l-C", ""}, {"A.", ""},
	}
	ref := refs[ndChoice(len(refs), "name")]
	text := []string{"N", "N[]", "N?", "(N)", "N | nil", "nil | N", "(N | l.C)[]", "nil | (N)[]"}[ndChoice(8, "expression")]
	lo, x := ndInt("lo"), ndInt("x")
	vFile("k.raml", "#%RAML 1.0 Library\ntypes: {K: string}\n")
	vFile("l.raml", "#%RAML 1.0 Library\nuses: {k: k.raml}\nannotationTypes: {N: string}\ntypes:\n  C: boolean\n  A: nil\n")
	vFile("m.raml", "#%RAML 1.0 Library\ntypes:\n  D: string\n  l: boolean\n")
	q := "\"" + strings.ReplaceAll(text, "N", ref.name) + "\""
	uses := "uses: {l: l.raml, m: m.raml}\n"
	names := "  A: {type: integer, minimum: " + vPlace(lo) + "}\n  H: string\n  l: string\n"
	doc := "#%RAML 1.0 Library\n" + uses + "annotationTypes: {N: string}\ntypes:\n" + names
	place := ndChoice(4, "place")
	switch place {
	case 0:
		doc += "  T: " + q + "\n"
	case 1:
		doc += "  T: {type: " + q + "}\n"
	case 2:
		doc = strings.Replace(doc, "{N: string}", "{N: string, T: "+q+"}", 1)
	case 3: // a data type has no types of its own, only libraries
		if strings.Count(ref.name, ".") == 0 && ref.name != "string" {
			ref.kind = ""
		}
		doc = "#%RAML 1.0 DataType\n" + uses + "type: " + q + "\n"
		vFile("h.raml", "#%RAML 1.0 Library\ntypes:\n"+names)
	}
	r, err := ParseFromString(doc, "lib.raml", vDir(), OptWithUnwrap())
	vAssert((err == nil) == (ref.kind != ""), "a name denotes a declared type, or is an error")
	if err != nil || ref.kind == "" {
		return
	}
	var b *BaseShape
	switch place {
	case 0, 1:
		b = vGet(r, "T")
	case 2:
		b, _ = r.EntryPoint().(*Library).AnnotationTypes.Get("T")
	case 3:
		b = r.EntryPoint().(*DataType).Shape
	}
	// The oracle knows the kinds under the names of c20Known.
	e, _ := c20Read(strings.ReplaceAll(text, "N", map[string]string{"least": "A", "boolean": "l.C", "nil": "nil", "string": "B"}[ref.kind]))
	vAssert(e.same(b), "an expression denotes the type it describes")
	for _, v := range c20Values(x) {
		vAssert(vOK(b, v) == e.accepts(v, lo), "an expression accepts exactly the values it describes")
	}
}

// VH_C20_wide: a union has any number of members.
func VH_C20_wide() {
	n := []int{2, 3, 4, 5, 8, 9, 12, 16, 17, 24, 33}[ndChoice(11, "members")]
	at := []int{0, 1, n / 2, n - 2, n - 1}[ndChoice(5, "position")]
	kind := ndChoice(3, "member")
	text := ""
	for i := 0; i < n; i++ {
		m := []string{"B", "l.C", "B[]"}[(i*i+n)%3]
		if i == at {
			m = []string{"A", "A[]", "nil | A"}[kind]
		}
		if i > 0 {
			text += " | "
		}
		text += m
	}
	c20Judge(strings.Replace([]string{"N", "(N)", "(N)[]", "(N)?", "nil | (N)"}[ndChoice(5, "around")], "N", text, 1))
}
