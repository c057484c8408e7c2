package raml

import "strings"

//use: common.go
//bound: four files (entry library, two libraries of the same base name in different folders, a data type), with symbolic aliases, declared names (plain, dotted, differing in case, of one namespace only) and one reference out of 20 names (plain, one or two dots, unknown) at 16 places; every pair of targets differs in a symbolic facet, every instance symbolic

var _ = vReg("VH_C12_types", VH_C12_types)
var _ = vReg("VH_C12_types_T", VH_C12_types_T)
var _ = vReg("VH_C12_annotations", VH_C12_annotations)
var _ = vReg("VH_C12_paths", VH_C12_paths)
var _ = vReg("VH_C12_same", VH_C12_same)
var _ = vReg("VH_C12_missing", VH_C12_missing)
var _ = vReg("VH_C12_names", VH_C12_names)

// c12File is a file with its declarations: name to minimum.
type c12File struct {
	path  string
	uses  []string // alias, path in pairs
	links map[string]*c12File
	names []string
	types map[string]int64
	annos map[string]int64
	body  string // further types
	more  string // further annotation types
	tail  string
}

func (f *c12File) use(alias, path string, to *c12File) {
	if f.links == nil {
		f.links = map[string]*c12File{}
	}
	f.uses = append(f.uses, alias, path)
	f.links[alias] = to
}

func (f *c12File) declare(kind string, names ...string) {
	if f.types == nil {
		f.types, f.annos = map[string]int64{}, map[string]int64{}
	}
	for _, n := range names {
		if kind == "type" {
			f.names = append(f.names, n)
			f.types[n] = ndInt(f.path + " " + n)
		} else {
			f.annos[n] = ndInt(f.path + " annotation " + n)
		}
	}
}

func (f *c12File) usesText() string {
	if len(f.uses) == 0 {
		return ""
	}
	s := "uses:\n"
	for i := 0; i < len(f.uses); i += 2 {
		s += "  " + f.uses[i] + ": " + f.uses[i+1] + "\n"
	}
	return s
}

// text renders the library; the sections come in one of two orders.
func (f *c12File) text(last bool) string {
	s := ""
	if !last {
		s += f.usesText()
	}
	if len(f.types) > 0 || f.body != "" {
		s += "types:\n"
		if !last {
			s += f.body
		}
		for _, n := range f.names {
			s += "  " + n + ": {type: integer, minimum: " + vPlace(f.types[n]) + "}\n"
		}
		if last {
			s += f.body
		}
	}
	if len(f.annos) > 0 || f.more != "" {
		s += "annotationTypes:\n" + f.more
		for _, n := range []string{"T", "U", "A", "l.T"} {
			if lo, ok := f.annos[n]; ok {
				s += "  " + n + ": {type: integer, minimum: " + vPlace(lo) + "}\n"
			}
		}
	}
	if last {
		s += f.usesText()
	}
	return s + f.tail
}

// c12Find is the meaning of a reference in a library or (local false) a data type file.
func (f *c12File) find(name string, annotation, local bool) (int64, bool) {
	of := func(g *c12File, n string) (int64, bool) {
		if annotation {
			lo, ok := g.annos[n]
			return lo, ok
		}
		lo, ok := g.types[n]
		return lo, ok
	}
	if local {
		if lo, ok := of(f, name); ok {
			return lo, true
		}
	}
	for i := len(name) - 1; i >= 0; i-- {
		if name[i] == '.' {
			if g, ok := f.links[name[:i]]; ok {
				return of(g, name[i+1:])
			}
			return 0, false
		}
	}
	return 0, false
}

// c12World makes the files: which library an alias means differs from file to file.
func c12World() (lib, dx, ex, dt *c12File) {
	lib, dx, ex, dt = &c12File{path: "lib.raml"}, &c12File{path: "d/x.raml"}, &c12File{path: "e/x.raml"}, &c12File{path: "d/dt.raml"}
	switch ndChoice(4, "uses") {
	case 0:
		lib.use("l", "d/x.raml", dx)
		lib.use("m", "e/x.raml", ex)
		dx.use("l", "../e/x.raml", ex)
		dt.use("l", "x.raml", dx)
		dt.use("n", "../lib.raml", lib)
	case 1:
		lib.use("m", "./d/../d/x.raml", dx)
		lib.use("l", "e/x.raml", ex)
		dx.use("m", "x.raml", dx)
		ex.use("l", "../d/x.raml", dx)
		dt.use("l", "../e/x.raml", ex)
		dt.use("m", "x.raml", dx)
	case 2:
		lib.use("l", "d/x.raml", dx)
		dx.use("m", "../e/x.raml", ex)
		dx.use("n", "../lib.raml", lib)
		ex.use("l", "../d/x.raml", dx)
		dt.use("m", "../lib.raml", lib)
	case 3:
		lib.use("l", "d/x.raml", dx)
		lib.use("l.m", "e/x.raml", ex)
		dx.use("m", "../lib.raml", lib)
		dt.use("l.m", "../d/./x.raml", dx)
	}
	return
}

var c12Refs = []string{"T", "U", "l.T", "m.T", "l.U", "m.U", "n.T", "l.m.T", "l.l.T", "t", "L.T", "A", "l.A", "n.U", "l.V", "V", "n.l.T", "m.l.T", "T.T", "l.m.U"}

// c12Uses puts a reference at a place of a file; it returns the declaration and a value that holds x there.
func c12Uses(ref string, place int, x any) (string, any) {
	switch place {
	case 0:
		return ref, x
	case 1:
		return "{properties: {p: " + ref + "}}", map[string]any{"p": x}
	case 2:
		return "\"" + ref + "[]\"", []any{x}
	case 3:
		return "boolean | " + ref, x
	case 4:
		return "{type: " + ref + ", description: d}", x
	case 5:
		return "[" + ref + "]", x
	case 6:
		return "{type: array, items: {properties: {\"/^k/\": {type: " + ref + "}}}}", []any{map[string]any{"k": x}}
	case 7:
		return "\"(" + ref + ")?\"", x
	case 8:
		return "{type: object, properties: {a: {properties: {b: \"" + ref + "?\"}}}}", map[string]any{"a": map[string]any{"b": x}}
	}
	return "{type: [integer, " + ref + "]}", x
}

func c12Types(orders bool) {
	lib, dx, ex, dt := c12World()
	n1, n2, place := ndChoice(4, "names"), ndChoice(2, "names of d/x"), ndChoice(10, "place")
	vAssume(orders || n1+n2 == 0 || place == 0 || place == 4)
	lib.declare("type", [][]string{{"T", "U", "l.T"}, {"T"}, {"U"}, {"l.m.T", "T"}}[n1]...)
	dx.declare("type", [][]string{{"T", "U"}, {"T", "m.T"}}[n2]...)
	ex.declare("type", "T", "V")
	lib.declare("annotation", "A", "T")
	dx.declare("annotation", "A", "U")
	ref := c12Refs[ndChoice(len(c12Refs), "reference")]
	x := ndInt("x")
	from := ndChoice(4, "file")
	use, v := c12Uses(ref, place, x)
	last := orders && ndBool("uses last")
	var lo int64
	var ok bool
	name := "R"
	switch from {
	case 0: // the entry library
		lo, ok = lib.find(ref, false, true)
		lib.body += "  R: " + use + "\n"
	case 1: // a used library
		lo, ok = dx.find(ref, false, true)
		dx.body += "  R: " + use + "\n"
		lib.body += "  S: " + []string{"l.R", "m.R"}[ndChoice(2, "alias")] + "\n"
		if _, has := lib.types["l.R"]; !has {
			name = "S"
		}
	case 2: // a data type file
		lo, ok = dt.find(ref, false, false)
		vFile(dt.path, "#%RAML 1.0 DataType\n"+dt.usesText()+"properties: {q: "+use+"}\n")
		v = map[string]any{"q": v}
		lib.body += "  R: !include d/dt.raml\n"
	case 3: // a library used by a used library, through the types of the one in between
		lo, ok = ex.find(ref, false, true)
		ex.body += "  R: " + use + "\n"
		name = "E"
		lib.use("other", "e/x.raml", ex)
		lib.body += "  E: other.R\n"
	}
	if from == 1 {
		// the alias must be the one of d/x
		a := lib.links["l"]
		if lib.body[len(lib.body)-4:] == "m.R\n" {
			a = lib.links["m"]
		}
		vAssume(a == dx)
	}
	vFile(dx.path, "#%RAML 1.0 Library\n"+dx.text(last))
	vFile(ex.path, "#%RAML 1.0 Library\n"+ex.text(last))
	text := "#%RAML 1.0 Library\n" + lib.text(last)
	vFile(lib.path, text)
	r, err := ParseFromString(text, "lib.raml", vDir(), OptWithUnwrap(), OptWithValidate())
	vAssert((err == nil) == ok, "a reference is an error exactly when nothing of that name is in scope")
	if err != nil || !ok {
		return
	}
	vAssert(vOK(vGet(r, name), v) == (x >= lo), "a reference denotes the type of that name in its own file")
}

// VH_C12_types: references to types.
func VH_C12_types()   { c12Types(false) }
func VH_C12_types_T() { c12Types(true) }

// VH_C12_annotations: annotations refer to annotation types.
func VH_C12_annotations() {
	lib, dx, ex, dt := c12World()
	lib.declare("annotation", [][]string{{"T"}, {"T", "U", "l.T"}, {"A"}}[ndChoice(3, "names")]...)
	dx.declare("annotation", "T", "U")
	ex.declare("annotation", "T")
	lib.declare("type", "T", "V")
	dx.declare("type", "A")
	ref := []string{"T", "U", "l.T", "m.T", "l.U", "m.U", "A", "l.A", "V", "n.T", "l.m.T", "t"}[ndChoice(12, "reference")]
	x := ndInt("x")
	use := "(" + ref + "): " + vPlace(x)
	var lo int64
	var ok bool
	switch from := ndChoice(11, "place"); from {
	case 0:
		lib.tail = use + "\n"
	case 1:
		lib.body = "  R: {type: string, " + use + "}\n"
	case 2:
		lib.body = "  R: {properties: {p: {type: string, " + use + "}}}\n"
	case 3:
		lib.body = "  R: {type: string, example: {value: x, " + use + "}}\n"
	case 4:
		lib.body = "  R: {type: array, items: {type: string, examples: {e: {value: x, " + use + "}}}}\n"
	case 5:
		lib.more = "  R: {type: string, " + use + "}\n"
	case 6:
		lib.body = "  R: {type: string, facets: {\"f?\": {type: string, " + use + "}}}\n"
	case 7:
		dx.tail = use + "\n"
	case 8:
		dx.body = "  R: {type: string, " + use + "}\n"
	case 9, 10:
		vFile(dt.path, "#%RAML 1.0 DataType\n"+dt.usesText()+[]string{"type: string\n" + use + "\n", "properties: {p: {type: string, " + use + "}}\n"}[from-9])
		lib.body = "  R: !include d/dt.raml\n"
	}
	switch {
	case dx.tail != "" || dx.body != "":
		lo, ok = dx.find(ref, true, true)
	case lib.body == "  R: !include d/dt.raml\n":
		lo, ok = dt.find(ref, true, false)
	default:
		lo, ok = lib.find(ref, true, true)
	}
	vFile(dx.path, "#%RAML 1.0 Library\n"+dx.text(false))
	vFile(ex.path, "#%RAML 1.0 Library\n"+ex.text(false))
	text := "#%RAML 1.0 Library\n" + lib.text(false)
	vFile(lib.path, text)
	opts := []ParseOpt{}
	if ndBool("unwrap") {
		opts = append(opts, OptWithUnwrap())
	}
	r, err := ParseFromString(text, "lib.raml", vDir(), opts...)
	vAssert((err == nil) == ok, "an annotation is an error exactly when no annotation type of that name is in scope")
	if err != nil || !ok {
		return
	}
	found := 0
	for _, de := range r.GetAllAnnotations() {
		if de.Name == ref {
			found++
			vAssert(de.DefinedBy != nil && vOK(de.DefinedBy, x) == (x >= lo), "an annotation is defined by the annotation type of that name in its own file")
		}
	}
	vAssert(found >= 1, "every annotation is recorded")
	vAssert((r.ValidateShapes() == nil) == (x >= lo), "an annotation is judged by the annotation type of that name in its own file")
}

// VH_C12_paths: paths are relative to the file they stand in, wherever the parser is started.
func VH_C12_paths() {
	lo := []int64{ndInt("root"), ndInt("d"), ndInt("d/e")}
	dirs := []string{"", "d/", "d/e/"}
	for i, d := range dirs {
		m := vPlace(lo[i])
		vFile(d+"x.raml", "#%RAML 1.0 Library\ntypes:\n  T: {type: integer, minimum: "+m+"}\n")
		vFile(d+"t.raml", "#%RAML 1.0 DataType\ntype: integer\nminimum: "+m+"\n")
		vFile(d+"n.raml", "#%RAML 1.0 NamedExample\na: "+m+"\n")
		vFile(d+"v.yaml", m+"\n")
	}
	at, to := ndChoice(3, "from"), ndChoice(3, "to")
	rel := [][]string{{"", "d/", "d/e/"}, {"../", "", "e/"}, {"../../", "../", ""}}[at][to]
	rel = []string{"", "./", "../" + []string{"", "d/", "e/"}[at], "e/../"}[ndChoice(4, "detour")] + rel
	vAssume(at > 0 || (len(rel) < 3 || rel[:3] != "../"))
	kind := ndChoice(4, "kind")
	data := ndBool("in a data type")
	use := []string{"T: l.T\n", "T: !include " + rel + "t.raml\n", "T: {type: integer, examples: !include " + rel + "n.raml}\n", "T: {type: integer, default: !include " + rel + "v.yaml}\n"}[kind]
	uses := ""
	if kind == 0 {
		uses = "uses: {l: " + rel + "x.raml}\n"
	}
	body := "#%RAML 1.0 Library\n" + uses + "types:\n  " + use
	if data {
		body = "#%RAML 1.0 DataType\n" + uses + "properties:\n  " + use
	}
	vFile(dirs[at]+"u.raml", body)
	var r *RAML
	var err error
	via := ndChoice(4, "entry")
	switch via {
	case 0:
		r, err = ParseFromPath(vDir() + "/" + dirs[at] + "u.raml")
	case 1:
		r, err = ParseFromString(body, "u.raml", vDir()+"/"+dirs[at])
	case 2:
		r, err = ParseFromString(body, dirs[at]+"u.raml", vDir())
	case 3:
		top := "#%RAML 1.0 Library\nuses: {u: " + dirs[at] + "u.raml}\ntypes:\n  T: u.T\n"
		if data {
			top = "#%RAML 1.0 Library\ntypes:\n  T: !include " + dirs[at] + "u.raml\n"
		}
		r, err = ParseFromString(top, "top.raml", vDir())
	}
	vAssert(err == nil, "a path is relative to the file it stands in")
	if err != nil {
		return
	}
	vAssert(r.UnwrapShapes() == nil, "a path is relative to the file it stands in")
	var b *BaseShape
	if dt, ok := r.EntryPoint().(*DataType); ok {
		b = dt.Shape
	} else {
		b = vGet(r, "T")
	}
	if data {
		p, _ := b.Shape.(*ObjectShape).Properties.Get("T")
		b = p.Base
	}
	switch kind {
	case 2:
		ex, _ := b.Examples.Map.Get("a")
		vAssert(c12Is(ex.Data.Value, lo[to]), "a path is relative to the file it stands in")
	case 3:
		vAssert(c12Is(b.Default.Value, lo[to]), "a path is relative to the file it stands in")
	default:
		x := ndInt("x")
		vAssert(vOK(b, x) == (x >= lo[to]), "a path is relative to the file it stands in")
	}
}

func c12Is(v any, i int64) bool {
	switch x := v.(type) {
	case int:
		return int64(x) == i
	case int64:
		return x == i
	}
	return false
}

// VH_C12_same: whatever the path and alias, a file is read once and its types are the same.
func VH_C12_same() {
	vFile("d/x.raml", "#%RAML 1.0 Library\ntypes:\n  T: {type: integer, minimum: "+vPlace(ndInt("lo"))+"}\n")
	vFile("d/t.raml", "#%RAML 1.0 DataType\nuses: {z: ../d/x.raml}\nproperties: {p: z.T}\n")
	vFile("e/y.raml", "#%RAML 1.0 Library\nuses: {x: ../d/x.raml}\ntypes:\n  Y: x.T\n  D: !include ../d/t.raml\n")
	r, err := ParseFromString("#%RAML 1.0 Library\nuses: {a: d/x.raml, b: ./d/x.raml, c: d/../d/x.raml, y: e/y.raml}\ntypes:\n  A: a.T\n  B: b.T\n  C: c.T\n  Y: y.Y\n  D: !include d/t.raml\n  F: !include e/../d/t.raml\n", "lib.raml", vDir())
	vAssert(err == nil, "the library is well formed")
	lib := r.EntryPoint().(*Library)
	link := func(n string) *Library { l, _ := lib.Uses.Get(n); return l.Link }
	get := func(l *Library, n string) *BaseShape { b, _ := l.Types.Get(n); return b }
	vAssert(link("a") == link("b") && link("a") == link("c"), "a file is one library, whatever the path to it")
	y, _ := link("y").Uses.Get("x")
	vAssert(y.Link == link("a"), "a file is one library, whatever the file that uses it")
	vAssert(get(lib, "A").Alias == get(link("a"), "T") && get(lib, "B").Alias == get(link("a"), "T") && get(lib, "C").Alias == get(link("a"), "T"), "references to one type denote the same type")
	vAssert(get(lib, "Y").Alias == get(link("y"), "Y") && get(link("y"), "Y").Alias == get(link("a"), "T"), "references to one type denote the same type")
	vAssert(get(lib, "D").Link == get(lib, "F").Link && get(lib, "D").Link == get(link("y"), "D").Link, "a data type file is one type, whatever the path to it")
	z, _ := get(lib, "D").Link.Uses.Get("z")
	vAssert(z.Link == link("a"), "a file is one library, whatever the file that uses it")
}

// VH_C12_missing: a file that does not exist or is of another kind is an error, referred to or not.
func VH_C12_missing() {
	vFile("l.raml", "#%RAML 1.0 Library\ntypes:\n  T: integer\n")
	vFile("t.raml", "#%RAML 1.0 DataType\ntype: integer\n")
	vFile("n.raml", "#%RAML 1.0 NamedExample\na: 1\n")
	vFile("o.raml", "#%RAML 1.0 Overlay\na: 1\n")
	vFile("e.raml", "types:\n  T: integer\n")
	vFile("v.yaml", "1\n")
	file := []string{"l.raml", "t.raml", "n.raml", "o.raml", "e.raml", "no.raml", "v.yaml", "d/l.raml", ".", ""}[ndChoice(10, "file")]
	kind := ndChoice(3, "kind")
	want := []string{"l.raml", "t.raml", "n.raml"}[kind]
	use := "uses: {l: " + file + "}\n"
	body := ""
	if kind == 0 && ndBool("refer") {
		body = "  T: l.T\n"
	}
	if kind == 1 {
		use = ""
		body = "  T: !include " + file + "\n"
	}
	if kind == 2 {
		use = ""
		body = "  T: {type: integer, examples: !include " + file + "}\n"
	}
	if file == "" {
		file = "\"\""
	}
	if kind == 0 {
		use = "uses: {l: " + file + "}\n"
	}
	doc := "#%RAML 1.0 Library\n" + use + "types:\n  Z: string\n" + body
	if ndBool("one level down") {
		vFile("m.raml", doc)
		doc = "#%RAML 1.0 Library\nuses: {m: m.raml}\ntypes:\n  Q: string\n"
	}
	_, err := ParseFromString(doc, "lib.raml", vDir())
	vAssert((err == nil) == (file == want), "using a file that is missing or of another kind is an error")
}

var c12Names = []string{"json", "composite", "recursive", "null", "strings", "string-x", "x-string", "any_", "nil-1", "arrays", "array.x", "1a", "Integer", "_", "-", "a-b_c", "object1", "unions", "date", "time-only-x", "types", "type", "properties", "file-x", "uses"}

// VH_C12_names: a declared type can have any name, also one that looks like a built-in one.
func VH_C12_names() {
	n := c12Names[ndChoice(len(c12Names), "name")]
	at := ndChoice(3, "where")
	vAssume(at == 0 || n != "array.x")
	ref := n
	if at > 0 {
		ref = "l." + n
	}
	x := ndInt("x")
	use, v := c12Uses(ref, ndChoice(10, "place"), x)
	lo := ndInt("lo")
	decl := "  " + n + ": {type: integer, minimum: " + vPlace(lo) + "}\n"
	if n == "null" {
		decl = "  \"null\": {type: integer, minimum: " + vPlace(lo) + "}\n"
	}
	if use == "null" {
		use = "\"null\""
	}
	if use == "-" {
		use = "\"-\""
	}
	vAssume(!strings.Contains(use, "[-]") && !strings.Contains(use, ", null]") && !strings.Contains(use, ", -]") && !strings.Contains(use, "[null]") && !strings.Contains(use, ": -}") && !strings.Contains(use, ": null}") && !strings.Contains(use, ": null,") && !strings.Contains(use, ": -,"))
	body := "types:\n  R: " + use + "\n"
	switch at {
	case 0:
		body += decl
	case 1:
		vFile("l.raml", "#%RAML 1.0 Library\ntypes:\n"+decl)
		body = "uses: {l: l.raml}\n" + body
	case 2:
		vFile("l.raml", "#%RAML 1.0 Library\ntypes:\n"+decl)
		vFile("d.raml", "#%RAML 1.0 DataType\nuses: {l: l.raml}\nproperties: {d: "+use+"}\n")
		body = "types:\n  R: !include d.raml\n"
		v = map[string]any{"d": v}
	}
	r, err := ParseFromString("#%RAML 1.0 Library\n"+body, "lib.raml", vDir(), OptWithUnwrap(), OptWithValidate())
	vAssert(err == nil, "a type of any name can be referred to")
	if err == nil {
		vAssert(vOK(vGet(r, "R"), v) == (x >= lo), "a reference denotes the type of that name in its own file")
	}
}
