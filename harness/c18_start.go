package raml

//use: common.go c14_schema.go gen.go c02_generic.go c22_determinism.go
//bound: 28 documents of up to four files (those of C22 and others with each kind of entry point), started in eight ways (path absolute, relative, not normalised; text; with or without a context or a parser) and taken through the steps in eight ways, alone or after one or two documents that were parsed successfully by the same parser; every first line with one character changed, inserted or missing, for three kinds of files in six roles; symbolic facets and instances
//assume: no file changes while a parser reads

import (
	"context"
	"os"
	"path/filepath"
)

var _ = vReg("VH_C18_start", VH_C18_start)
var _ = vReg("VH_C18_steps", VH_C18_steps)
var _ = vReg("VH_C18_history", VH_C18_history)
var _ = vReg("VH_C18_head", VH_C18_head)
var _ = vReg("VH_C18_identify", VH_C18_identify)

const c18Starts = 8

// c18Start parses the file of a document in one of the ways.
func c18Start(way int, text, name string, opts ...ParseOpt) (*RAML, error) {
	path := vDir() + "/" + name
	switch way {
	default:
		return ParseFromString(text, name, vDir(), opts...)
	case 1:
		return ParseFromPath(path, opts...)
	case 2:
		return ParseFromPath(vDir()+"/./"+name, opts...)
	case 3:
		return ParseFromPath(vDir()+"/sub/../"+name, opts...)
	case 4:
		return ParseFromPath(vDir()+"//"+name, opts...)
	case 5:
		wd, err := os.Getwd()
		if err != nil {
			return nil, err
		}
		rel, err := filepath.Rel(wd, path)
		if err != nil {
			return nil, err
		}
		return ParseFromPathCtx(context.Background(), rel, opts...)
	case 6:
		return ParseFromStringCtx(context.Background(), text, name, vDir()+"/sub/..", opts...)
	case 7:
		r := New(context.Background())
		return r, r.ParseFromPath(path, opts...)
	}
}

func c18Docs(lo, x int64) []c22Doc {
	m := vPlace(lo)
	docs := c22Docs(lo, x)
	L := func(s string) string { return "#%RAML 1.0 Library\n" + s }
	D := func(s string) string { return "#%RAML 1.0 DataType\n" + s }
	key := func(k string, v any) map[string]any { return map[string]any{k: v} }
	return append(docs,
		// the entry point is used or included by the files that it refers to, or by itself
		c22Doc{[][2]string{{"a.raml", L("uses: {me: a.raml, b: b.raml}\ntypes:\n  T: {properties: {p: me.U, q: b.V}}\n  U: {type: integer, minimum: " + m + "}\n")}, {"b.raml", L("uses: {a: ./a.raml}\ntypes:\n  V: {type: a.U, maximum: 50}\n")}},
			[]any{map[string]any{"p": x, "q": x}, map[string]any{"p": x, "q": int64(51)}}},
		c22Doc{[][2]string{{"a.raml", D("properties:\n  v: {type: integer, minimum: " + m + "}\n  \"n?\": !include a.raml\n")}},
			[]any{key("v", x), map[string]any{"v": x, "n": key("v", x)}, map[string]any{"v": x, "n": x}}},
		c22Doc{[][2]string{{"a.raml", D("uses: {b: b.raml}\nproperties:\n  v: b.U\n")}, {"b.raml", L("uses: {b: b.raml}\ntypes:\n  U: {properties: {\"w?\": !include a.raml, i: {type: integer, minimum: " + m + "}}}\n")}},
			[]any{key("v", key("i", x)), key("v", map[string]any{"i": x, "w": key("v", key("i", x))})}},
		c22Doc{[][2]string{{"a.raml", L("uses: {b: sub/b.raml}\ntypes:\n  T: {type: b.U, maximum: 90}\n")}, {"sub/b.raml", L("uses: {a: ../a.raml, c: ../sub/c.raml}\ntypes:\n  U: c.V\n  W: {type: a.T, maximum: 80}\n")}, {"sub/c.raml", L("types:\n  V: {type: integer, minimum: " + m + "}\n")}},
			[]any{x}},
		c22Doc{[][2]string{{"a.raml", "#%RAML 1.0 NamedExample\na: {b: [" + m + ", !include sub/z.raml]}\nc: {value: {d: 5}, description: e}\n"}}, nil},
		// the last steps find what is wrong
		c22Doc{[][2]string{{"a.raml", L("annotationTypes: {n: {type: integer, minimum: " + m + "}}\ntypes:\n  T: {type: object, (n): 7}\n")}},
			[]any{key("a", x)}},
		c22Doc{[][2]string{{"a.raml", L("types:\n  F: {facets: {f: {type: integer, minimum: " + m + "}}}\n  T: {type: F, f: 7}\n")}},
			[]any{key("a", x)}},
		c22Doc{[][2]string{{"a.raml", L("types:\n  A: {type: string, maxLength: 5}\n  B: {type: integer, minimum: " + m + "}\n  T: {properties: {p: {type: A | B, default: 7}, q: (A | B)[]}, additionalProperties: false}\n")}},
			[]any{map[string]any{"p": x, "q": []any{x, "abc"}}, map[string]any{"p": "abcdef", "q": []any{}}}},
		c22Doc{[][2]string{{"a.raml", L("types:\n  A: {properties: {p: {type: integer, minimum: " + m + "}}}\n  T: {type: A, properties: {p: {type: integer, minimum: 7}}}\n")}},
			[]any{key("p", x)}},
	)
}

func c18Files(d c22Doc) {
	for _, f := range d.files {
		vFile(f[0], f[1])
	}
	vFile("sub/z.raml", "#%RAML 1.0 Library\n")
}

func c18Same(a, b *RAML, values []any) string {
	if e, ok := a.EntryPoint().(*NamedExample); ok {
		f, ok := b.EntryPoint().(*NamedExample)
		if !ok || e.Map.Len() != f.Map.Len() {
			return "the examples differ"
		}
		for p, q := e.Map.Oldest(), f.Map.Oldest(); p != nil; p, q = p.Next(), q.Next() {
			if p.Key != q.Key || vTxt(p.Value.Data.Value) != vTxt(q.Value.Data.Value) || p.Value.Description != q.Value.Description {
				return "the examples differ"
			}
		}
		return ""
	}
	s, t := c22Type(a), c22Type(b)
	if c22Facets(s, 5) != c22Facets(t, 5) {
		return "the facets differ"
	}
	if s.IsUnwrapped() != t.IsUnwrapped() {
		return "one is unwrapped"
	}
	if !s.IsUnwrapped() {
		return ""
	}
	for _, v := range values {
		if vOK(s, v) != vOK(t, v) {
			return "the values differ"
		}
	}
	return ""
}

// VH_C18_start: it does not matter how a parse is started.
func VH_C18_start() {
	lo, x := ndInt("lo"), ndInt("x")
	docs := c18Docs(lo, x)
	d := docs[ndChoice(len(docs), "document")]
	c18Files(d)
	opts := c22Opts(ndChoice(4, "mode"))
	first, err1 := c18Start(0, d.files[0][1], d.files[0][0], opts...)
	second, err2 := c18Start(1+ndChoice(c18Starts-1, "start"), d.files[0][1], d.files[0][0], opts...)
	vAssert((err1 == nil) == (err2 == nil), "a document is valid or not however the parse is started")
	if err1 != nil || err2 != nil {
		return
	}
	why := c18Same(first, second, d.values)
	vAssert(why == "", "a type is the same however the parse is started: "+why)
	vReach("start")
}

// VH_C18_steps: the steps may be options of the parse or calls, in any sensible number and order.
func VH_C18_steps() {
	lo, x := ndInt("lo"), ndInt("x")
	docs := c18Docs(lo, x)
	d := docs[ndChoice(len(docs), "document")]
	c18Files(d)
	first, err1 := c18Start(0, d.files[0][1], d.files[0][0], c22Opts(3)...)
	steps := []string{"uv", "v", "vuv", "vv", "uuv", "uvuv", "Uv", "Vuv", "Vv"}[ndChoice(9, "steps")]
	var opts []ParseOpt
	unwrapped := false
	switch steps[0] {
	case 'U':
		opts = c22Opts(1)
		unwrapped = true
	case 'V':
		opts = c22Opts(2)
	}
	second, err2 := c18Start(0, d.files[0][1], d.files[0][0], opts...)
	for i := 0; i < len(steps) && err2 == nil; i++ {
		switch steps[i] {
		case 'u':
			err2 = second.UnwrapShapes()
			unwrapped = true
		case 'v':
			err2 = second.ValidateShapes()
		}
	}
	vAssert((err1 == nil) == (err2 == nil), "a document is valid or not whatever the steps")
	if err1 != nil || err2 != nil {
		vReach("invalid")
		return
	}
	if !unwrapped {
		// validation leaves the model as it was
		plain, _ := c18Start(0, d.files[0][1], d.files[0][0])
		why := c18Same(plain, second, d.values)
		vAssert(why == "", "validation changes nothing: "+why)
		vAssert(second.UnwrapShapes() == nil, "a valid document can be unwrapped")
	}
	why := c18Same(first, second, d.values)
	vAssert(why == "", "a type is the same whatever the steps: "+why)
	vReach("valid")
}

// VH_C18_history: a parser can parse several documents.
func VH_C18_history() {
	lo, x := ndInt("lo"), ndInt("x")
	docs := c18Docs(lo, x)
	d := docs[ndChoice(len(docs), "document")]
	c18Files(d)
	mode := ndChoice(4, "mode")
	first, err1 := c18Start(0, d.files[0][1], d.files[0][0], c22Opts(mode)...)
	vFile("other.raml", "#%RAML 1.0 Library\nannotationTypes: {n: string}\ntypes:\n  T: {type: string, minLength: 2, (n): x}\n  U: {type: T, maxLength: 9}\n")
	r := New(context.Background())
	var err error
	modeBefore := ndChoice(4, "mode before")
	before := c22Opts(modeBefore)
	switch ndChoice(4, "before") {
	case 0:
		err = r.ParseFromPath(vDir()+"/other.raml", before...)
	case 1:
		err = r.ParseFromPath(vDir()+"/"+d.files[len(d.files)-1][0], before...)
	case 2:
		err = r.ParseFromString(d.files[0][1], d.files[0][0], vDir(), before...)
	case 3:
		err = r.ParseFromPath(vDir()+"/other.raml", before...)
		if err == nil {
			err = r.ParseFromPath(vDir()+"/"+d.files[0][0], before...)
		}
	}
	if err != nil {
		return
	}
	err2 := r.ParseFromPath(vDir()+"/"+d.files[0][0], c22Opts(mode)...)
	vAssert((err1 == nil) == (err2 == nil), "a document is valid or not whatever the parser did before")
	if err1 != nil || err2 != nil {
		return
	}
	if modeBefore%2 == 1 && mode%2 == 0 {
		// What has been unwrapped before stays so: the rest is unwrapped, too.
		err1, err2 = first.UnwrapShapes(), r.UnwrapShapes()
		vAssert((err1 == nil) == (err2 == nil), "a document can be unwrapped or not whatever the parser did before")
		if err1 != nil || err2 != nil {
			return
		}
	}
	why := c18Same(first, r, d.values)
	vAssert(why == "", "a type is the same whatever the parser did before: "+why)
	vReach("history")
}

// VH_C18_head: the first line of a file decides what it is.
func VH_C18_head() {
	kind := ndChoice(3, "kind")
	head := "#%RAML 1.0 " + []string{"Library", "DataType", "NamedExample"}[kind]
	at := len(head)
	if vThorough {
		at = ndChoice(len(head)+1, "where")
	} else {
		at = []int{0, 1, 5, 6, 10, 11, len(head) - 1, len(head)}[ndChoice(8, "where")]
	}
	tail := ""
	valid := true
	c := []byte{' ', '\n', '\r', 'a', 'L', '#', '%', '.', '1', '0', '-', '_', '/'}[ndChoice(13, "c")]
	switch ndChoice(4, "change") {
	case 0:
		tail = []string{"", " ", "\r", " \r", "   "}[ndChoice(5, "end")]
	case 1: // inserted
		valid = at == len(head) && (c == ' ' || c == '\r' || c == '\n')
		head = head[:at] + string(rune(c)) + head[at:]
	case 2: // replaced
		if at == len(head) {
			return
		}
		valid = c == head[at]
		head = head[:at] + string(rune(c)) + head[at+1:]
	case 3: // the line ends early
		valid = at == len(head)
		head = head[:at]
	}
	body := []string{"types:\n  U: integer\n", "type: integer\n", "a: 5\n"}[kind]
	text := head + tail + "\n" + body
	vFile("f.raml", text)
	var err error
	start := ndChoice(3, "start")
	switch start {
	case 0:
		_, err = ParseFromString(text, "f.raml", vDir())
	case 1:
		_, err = ParseFromPath(vDir() + "/f.raml")
	case 2:
		how := ndChoice(4, "how it is referred to")
		_, err = ParseFromString([]string{
			"#%RAML 1.0 Library\nuses: {l: f.raml}\n",
			"#%RAML 1.0 Library\ntypes:\n  T: !include f.raml\n",
			"#%RAML 1.0 Library\ntypes:\n  T: {type: integer, examples: !include f.raml}\n",
			"#%RAML 1.0 DataType\nuses: {l: f.raml}\ntype: integer\n",
		}[how], "a.raml", vDir())
		if kind != []int{0, 1, 2, 0}[how] {
			valid = false // not the kind that belongs here
		}
	}
	vAssert((err == nil) == valid, "a file is what its first line says")
	vReach("head")
}

// VH_C18_identify: a head is one of three.
func VH_C18_identify() {
	head := ndStr(24)
	k, err := IdentifyFragment(head)
	vAssert(vIff(err == nil, vOr(head == "#%RAML 1.0 Library", vOr(head == "#%RAML 1.0 DataType", head == "#%RAML 1.0 NamedExample"))), "a head is one of three")
	if err == nil {
		vAssert(vAnd(vIff(k == FragmentLibrary, head == "#%RAML 1.0 Library"), vIff(k == FragmentNamedExample, head == "#%RAML 1.0 NamedExample")), "a head says which kind")
	}
}
