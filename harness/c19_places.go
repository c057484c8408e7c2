package raml

//use: common.go place.go
//bound: 65 faults of all kinds (malformed facets and values, unknown references and annotations, contradictions, wrong examples, defaults and custom facets, faulty included files) at 18 places; sets of up to six faults (one of them decided by a symbolic value) in a library, a used library and a data type that one step finds; 16 unusable files referred to in 8 ways, and two unusable libraries used by one; a model of four files with every part marked, at three offsets, before and after unwrapping and validation
//assume: of several faults in one declaration one is reported; a malformed document is reported up to its first fault; faults of a later step are not reported

import (
	"strconv"
	"strings"

	"github.com/acronis/go-stacktrace"
	orderedmap "github.com/wk8/go-ordered-map/v2"
)

var _ = vReg("VH_C19_faults", VH_C19_faults)
var _ = vReg("VH_C19_all", VH_C19_all)
var _ = vReg("VH_C19_resolve", VH_C19_resolve)
var _ = vReg("VH_C19_files", VH_C19_files)
var _ = vReg("VH_C19_model", VH_C19_model)

// c19Marked tells which faults (letters) the lines of a text stand for: those that are
// faulty ("#!ab") and those that refer to something faulty ("#?ab").
func c19Marked(s string) (map[int]string, map[int]string) {
	m, u := map[int]string{}, map[int]string{}
	for i, l := range strings.Split(s, "\n") {
		if k := strings.Index(l, " #!"); k >= 0 {
			m[i+1] = l[k+3:] + "."
		}
		if k := strings.Index(l, " #?"); k >= 0 {
			u[i+1] = l[k+3:] + "."
		}
	}
	return m, u
}

type c19Place struct {
	file string
	line int // 0: no position
}

// c19Chains are the traces of an error: what wraps what, outermost first.
func c19Chains(st *stacktrace.StackTrace, above []c19Place) [][]c19Place {
	var all [][]c19Place
	here := append(append([]c19Place(nil), above...), c19Place{})
	p := &here[len(here)-1]
	if st.Location != nil {
		p.file = string(*st.Location)
	}
	if st.Position != nil {
		p.line = st.Position.Line
	}
	if st.Wrapped != nil {
		all = append(all, c19Chains(st.Wrapped, here)...)
	} else {
		all = append(all, here)
	}
	for _, e := range st.List {
		all = append(all, c19Chains(e, above)...)
	}
	return all
}

// c19Judge says what is wrong with the places an error names, given the files with marks
// at the faulty lines and the faults that there are; "" if nothing is.
func c19Judge(files map[string]string, faults string, err error) string {
	st, ok := stacktrace.Unwrap(err)
	if !ok {
		return "the error has no places"
	}
	found := ""
	for _, c := range c19Chains(st, nil) {
		hit := false
		for _, p := range c {
			if p.file == "" {
				continue
			}
			s, known := files[p.file]
			if !known {
				return "a place in no file"
			}
			if p.line == 0 {
				continue
			}
			if p.line < 1 || p.line > strings.Count(s, "\n")+1 {
				return "a place beyond the end of its file"
			}
			m, u := c19Marked(s)
			for _, f := range faults {
				if strings.ContainsRune(m[p.line], f) {
					hit = true
					found += string(f)
				}
				if strings.ContainsRune(u[p.line], f) {
					hit = true
				}
			}
		}
		if !hit {
			return "a trace that leads to no fault"
		}
	}
	for _, f := range faults {
		if !strings.ContainsRune(found, f) {
			return "no trace leads to a fault"
		}
	}
	return ""
}

func c19All(files map[string]string, name string, body string) {
	vFile(name, body)
	files[vDir()+"/"+name] = body
}

// c19Faults are declarations of a type with the faulty lines marked.
var c19Faults = [][]string{
	{"type: string", "minLength: a #!"},
	{"type: string", "maxLength: -1 #!", "minLength: 0"},
	{"type: string", "enum: 5 #!"},
	{"description: d", "minimum: [] #!"},
	{"type: {a: b} #!"},
	{"properties: 5 #!"},
	{"description: d", "facets: 5 #!"},
	{"type: object", "properties:", "  a: string", "  b:", "    type: string", "    minLength: a #!"},
	{"type: object", "properties:", "  a: string", "  /b/:", "    type: string", "    pattern: '(' #!"},
	{"type: object", "properties:", "  a: string", "  /(/: string #!"},
	{"type: array", "items:", "  type: array", "  uniqueItems: 7 #!"},
	{"type: array", "items:", "  type: string", "  example: 1", "  examples: {a: 1} #!"},
	{"type: string", "(): 5 #!"},
	{"type: string", "example: !include none.json #!"},
	{"type: string", "examples:", "  a: x", "  b: !include none.txt #!"},
	{"type: string", "default: {a: 1, b: !include none.yaml} #!"},
	{"type: integer", "format: int99 #!"},
	{"type: number", "minimum: x #!"},
	{"minLength: 1 #!", "minimum: 2 #!"},
	{"type: [] #!"},
	{"type: [string, [integer]] #!"},
	{"type: !include none.raml #!"},
	{"type: '{' #!"},
	{"type: file", "fileTypes: 5 #!"},
	{"type: boolean", "enum: x #!"},
	{"type: object", "additionalProperties: x #!"},
	{"type: object", "discriminator: [a] #!"},
	{"type: string", "example:", "  value: 5", "  strict: x #!"},
	// resolve
	{"type: Nope #!"},
	{"type: string | #!"},
	{"type: string | (Nope #!", "description: d"},
	{"type: Nope[] #!", "minItems: 2 #!"},
	{"type: array", "items: Nope #!"},
	{"type: string", "(nope): 5 #!"},
	{"type: object", "properties:", "  a: string", "  b: Nope #!", "  c: integer"},
	{"type: object", "properties:", "  a: string", "  b:", "    type: Nope #!", "    description: d #!", "  c: integer"},
	{"type: object", "facets:", "  f: string", "  g: Nope #!"},
	{"type: string", "example:", "  value: a", "  (nope): 6 #!"},
	// validate
	{"minLength: 2 #!", "maxLength: 1 #!"},
	{"type: object", "properties:", "  a: string", "  b:", "    minimum: 5 #!", "    maximum: 2 #!", "  c: integer"},
	{"type: object", "properties:", "  a: string", "  /b/:", "    minItems: 5 #!", "    maxItems: 2 #!"},
	{"type: array", "items:", "  type: array", "  items:", "    minProperties: 5 #!", "    maxProperties: 2 #!"},
	{"type: string", "example: 5 #!"},
	{"type: string", "default: 5 #!"},
	{"type: string", "examples:", "  a: x", "  b: 5 #!", "  c: y"},
	{"type: string", "examples:", "  a: x", "  b:", "    value: 5 #!", "    strict: true #!", "  c: y"},
	{"type: object", "properties:", "  a: string", "  b:", "    type: string", "    example: 5 #!"},
	{"type: object", "properties: {a: string}", "example:", "  a: #!", "    5 #!"},
	{"type: string | integer", "description: d", "example: true #!"},
	{"type: string", "nope: 5 #!"},
	{"type: array", "items:", "  type: string", "  description: e", "  nope: 5 #!"},
	{"type: object", "facets:", "  f: string", "  g:", "    type: string #!", "    minLength: 5 #!", "    maxLength: 2 #!"},
	{"type: object", "facets:", "  f: string", "  g:", "    type: string", "    default: 5 #!"},
	{"type: object #!", "discriminator: x #!", "properties: #!", "  a: string #!"},
	{"type: string", "example: !include v.json #!"},
	{"type: string", "default: !include v.yaml #!"},
	{"type: string", "examples: !include e.raml"},
	{"type: string", "example: !include bad.json #!"},
	{"type: string", "example: !include bad.yaml #!"},
	{"type: string", "default: {a: !include bad.yaml} #!"},
	{"type: string", "example: !include mark.yaml #!"},
	{"type: !include d2.raml"},
	{"type: object", "properties:", "  a: !include d3.raml"},
	{"type: object", "properties:", "  a: !include d4.raml"},
}

func c19Doc(fault, place int, files map[string]string) string {
	c19All(files, "v.json", "5\n")
	c19All(files, "v.yaml", "5 #!\n")
	c19All(files, "bad.json", "{\n\"a\": 5\n")
	c19All(files, "bad.yaml", "a: [\n")
	c19All(files, "mark.yaml", "a:\n  b: 5\n  c: *x #!\n")
	c19All(files, "e.raml", "#%RAML 1.0 NamedExample\na: x\nb: 5 #!\n")
	c19All(files, "d2.raml", "#%RAML 1.0 DataType\ntype: string\nminLength: x #!\n")
	c19All(files, "d3.raml", "#%RAML 1.0 DataType\ntype: string\nexample: 5 #!\n")
	c19All(files, "d4.raml", "#%RAML 1.0 DataType\ntype: object\nproperties:\n  a: Nope #!\n")
	body := "#%RAML 1.0 Library\n" + vDecl(c19Faults[fault], place)
	for _, l := range []string{"U: string | T\n", "!include d.raml\n"} { // these refer to the faulty type
		body = strings.Replace(body, l, l[:len(l)-1]+" #?\n", 1)
	}
	for _, n := range []string{"none.json", "none.txt", "none.yaml", "none.raml"} {
		files[vDir()+"/"+n] = ""
	}
	files[vDir()+"/lib.raml"] = body
	for n, c := range vPlaced {
		files[vDir()+"/"+n] = c
	}
	return body
}

// VH_C19_faults: one fault at every place a type can be declared.
func VH_C19_faults() {
	unwrap := ndBool("unwrap first")
	fault, place := ndChoice(len(c19Faults), "fault"), ndChoice(vPlaces, "place")
	files := map[string]string{}
	body := c19Doc(fault, place, files)
	if strings.HasPrefix(c19Faults[fault][0], "type: object") && place == 10 && strings.Contains(body, "        facets:") {
		return // definitions within definitions are dropped
	}
	opts := []ParseOpt{OptWithValidate()}
	if unwrap {
		opts = append(opts, OptWithUnwrap())
	}
	_, err := ParseFromString(body, "lib.raml", vDir(), opts...)
	vAssert(err != nil, "a faulty declaration is an error")
	why := c19Judge(files, ".", err)
	vAssert(why == "", "the error leads to the fault: "+why)
	vReach("error")
}

// c19Fill puts "L<line>C<column>V<column of the mark>F<file>" in the place of each "@@" of a text.
func c19Fill(s, file string) string {
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if k := strings.Index(l, "@@"); k >= 0 {
			col := len(l) - len(strings.TrimLeft(l, " -")) + 1
			lines[i] = l[:k] + "L" + strconv.Itoa(i+1) + "C" + strconv.Itoa(col) + "V" + strconv.Itoa(k+1) + "F" + file[:1] + l[k+2:]
		}
	}
	return strings.Join(lines, "\n")
}

// c19At tells whether a mark says this place; what is C (the first key of the line) or V (the mark).
func c19At(mark string, pos stacktrace.Position, what byte) bool {
	c, v := strings.Index(mark, "C"), strings.Index(mark, "V")
	col := mark[c+1 : v]
	if what == 'V' {
		col = mark[v+1 : strings.Index(mark, "F")]
	}
	return strconv.Itoa(pos.Line) == mark[1:c] && strconv.Itoa(pos.Column) == col
}

func c19IsMark(v any) (string, bool) {
	s, ok := v.(string)
	return s, ok && len(s) > 4 && s[0] == 'L' && strings.Contains(s, "C") && strings.Contains(s, "V") && strings.Contains(s, "F")
}

// VH_C19_all: any set of faults in several declarations and files is reported as a whole.
func VH_C19_all() {
	files := map[string]string{}
	derived := ndChoice(3, "what is derived") // 0: nothing
	x := []int64{1, 1, 1, 1, 7, 7}
	n := 4 + []int{0, 2, 1}[derived]
	sym := ndChoice(n+1, "symbolic") // n: none, with every set of faults
	all := sym < n && ndChoice(2, "the others are faulty") == 1
	for k := 0; k < n; k++ {
		if k == sym {
			x[k] = ndInt("x")
		} else if all || sym == n && ndChoice(2, "faulty") == 1 {
			x[k] = []int64{9, 4}[k/4]
		}
	}
	unwrap := ndChoice(2, "unwrap first") == 1
	set := ndChoice(4, "set")
	lib, l, d := "uses: {l: l.raml}\nannotationTypes:\n  n: {type: integer, maximum: 5}\n", "", ""
	late, early := "", "" // the faults that validation and unwrapping find
	fault := func(k int, cond bool, of *string) {
		if cond {
			*of += string(rune('a' + k))
		}
	}
	v := func(k int) string { return vPlace(x[k]) }
	lib += "types:\n  A0: string\n"
	switch set {
	case 0:
		lib += "  A:\n    minimum: " + v(0) + " #!a\n    maximum: 5 #!a\n  B:\n    type: object\n    properties:\n      q: string\n      p:\n        description: d #!b\n        minimum: " + v(1) + " #!b\n        maximum: 5 #!b\n"
		l = "types:\n  C:\n    type: integer\n    maximum: 5\n    example: " + v(2) + " #!c\n"
		d = "type: integer #!d\nminimum: " + v(3) + " #!d\nmaximum: 5 #!d\n"
	case 1:
		lib += "  A:\n    type: integer\n    maximum: 5\n    default: " + v(0) + " #!a\n    (n): 1\n  B:\n    type: array\n    (n): " + v(1) + " #!b\n"
		l = "uses: {m: lib.raml}\ntypes:\n  C:\n    type: object\n    facets:\n      k: {type: integer, maximum: 5}\n  D:\n    type: C\n    k: " + v(2) + " #!c\n"
		d = "uses: {m: lib.raml}\nproperties:\n  /x/: string\n  z:\n    type: integer\n    maximum: 5\n    examples:\n      e1: 1\n      e2: " + v(3) + " #!d\n"
	case 2:
		lib += "  A:\n    type: array\n    items:\n      type: array\n      items:\n        minimum: " + v(0) + " #!a\n        maximum: 5 #!a\n  B:\n    type: string\n    facets:\n      z: string\n      k:\n        minimum: " + v(1) + " #!b\n        maximum: 5 #!b\n"
		l = "annotationTypes:\n  C:\n    minimum: " + v(2) + " #!c\n    maximum: 5 #!c\n"
		d = "type: object\nproperties:\n  z: !include e.raml #?d\n"
		c19All(files, "e.raml", "#%RAML 1.0 DataType\ntype: array\nitems:\n  minimum: "+v(3)+" #!d\n  maximum: 5 #!d\n")
	case 3:
		lib += "  A:\n    type: string | integer\n    facets: {\"r?\": string}\n  B:\n    properties:\n      a: string\n    minProperties: " + v(1) + " #!b\n    maxProperties: 5 #!b\n  # the first line of B is where it stands\n"
		lib = strings.Replace(lib, "  B:\n    properties:\n", "  B:\n    properties: #!b\n", 1)
		vAssume(x[1] >= 0)
		x[0] = 0
		l = "types:\n  C:\n    type: nil\n  D:\n    type: C | integer #!c\n    description: d #!c\n    default: " + v(2) + " #!c\n  E: {type: integer, maximum: 5}\n  F:\n    properties:\n      e:\n        type: E\n        default: " + v(2) + " #!c\n"
		l = strings.Replace(l, "    default: "+v(2)+" #!c\n  E", "  E", 1)
		d = "type: object\nproperties:\n  a: integer\nexample: #!d\n  a: 1 #!d\n  b: 2 #!d\nmaxProperties: " + v(3) + "\n"
		vAssume(x[3] >= 0)
		x[3] = 7 - x[3] // at most one property: faulty
	}
	for k := 0; k < 4; k++ {
		fault(k, x[k] > 5, &late)
	}
	switch derived {
	case 1:
		lib += "  P: {type: integer, minimum: 5}\n  Q:\n    type: P #!e\n    minimum: " + v(4) + " #!e\n  R:\n    type: object\n    properties:\n      q: Q #?e\n"
		if set == 2 {
			l += "types:\n"
		}
		l += "  Y: {type: integer, minimum: 5}\n"
		if z := "  Z:\n    type: Y #!f\n    minimum: " + v(5) + " #!f\n"; set%2 == 0 {
			l += z
		} else { // in the library of the other one
			lib = strings.Replace(lib, "annotationTypes:\n", "annotationTypes:\n"+strings.Replace(z, "Y", "P", 1), 1)
		}
		fault(4, x[4] < 5, &early)
		fault(5, x[5] < 5, &early)
	case 2:
		lib += "  P:\n    properties:\n      p: {type: integer, minimum: 5}\n  Q:\n    type: P\n    properties:\n      o: string\n      p:\n        type: integer #!e\n        minimum: " + v(4) + " #!e\n  R: Q[] #?e\n"
		fault(4, x[4] < 5, &early)
	}
	lib += "  Z9: !include d.raml #?d\n"
	c19All(files, "l.raml", "#%RAML 1.0 Library\n"+l)
	c19All(files, "d.raml", "#%RAML 1.0 DataType\n"+d)
	c19All(files, "lib.raml", "#%RAML 1.0 Library\n"+lib)
	opts := []ParseOpt{OptWithValidate()}
	faults := early + late
	if unwrap {
		opts = append(opts, OptWithUnwrap())
		if early != "" {
			faults = early
		}
	}
	_, err := ParseFromPath(vDir()+"/lib.raml", opts...)
	vAssert((err != nil) == (faults != ""), "an error iff there is a fault")
	if err == nil {
		vReach("none")
		return
	}
	why := c19Judge(files, faults, err)
	vAssert(why == "", "the error leads to every fault: "+why)
	vReach("error")
}

// VH_C19_resolve: every reference without a target is reported.
func VH_C19_resolve() {
	x := ndInt("x")
	files := map[string]string{}
	faults := ""
	name := func(k int, good string) string {
		f := string(rune('a' + k))
		switch ndChoice(2, f) {
		case 1:
			faults += f
			return "Nope" + " #!" + f
		}
		return good
	}
	ann := false // unknown annotations are looked for when the types are resolved
	lib := "uses: {l: l.raml}\n"
	lib += "types:\n  A:\n    minimum: " + vPlace(x) + "\n  B: " + name(0, "A") + "\n  C:\n    properties:\n      p: " + name(1, "A[]") + "\n      q: string\n  D: !include d.raml #?d\n"
	l := "types:\n  E:\n    type: array\n    items: " + name(2, "string") + "\n"
	d := "uses: {l: l.raml}\nproperties:\n  z: " + name(3, "l.E") + "\n"
	if ndBool("annotations instead") {
		vAssume(faults == "")
		ann = true
		lib += "  F:\n    type: string\n    (" + name(4, "n") + "\n  G:\n    properties:\n      p:\n        type: string\n        example:\n          value: a\n          (" + name(5, "n") + "\nannotationTypes:\n  n: integer\n"
		lib = strings.ReplaceAll(lib, "(Nope", "(Nope): 5")
		lib = strings.ReplaceAll(lib, "(n\n", "(n): 5\n")
	}
	c19All(files, "l.raml", "#%RAML 1.0 Library\n"+l)
	c19All(files, "d.raml", "#%RAML 1.0 DataType\n"+d)
	c19All(files, "lib.raml", "#%RAML 1.0 Library\n"+lib)
	_, err := ParseFromPath(vDir() + "/lib.raml")
	vAssert((err != nil) == (faults != ""), "an error iff there is a fault")
	if err == nil {
		vReach("none")
		return
	}
	why := c19Judge(files, faults, err)
	vAssert(why == "", "the error leads to every fault: "+why)
	if ann {
		vReach("annotations")
	}
	vReach("error")
}

// c19Files are files that another file refers to, which are missing, of another kind or not readable.
var c19Files = []string{
	"", "#%RAML 1.0 Other #!\ntypes: {}\n", "#%RAML 1.0 NamedExample #!\na: b\n", "#%RAML 1.0 Library\ntypes: 5 #!\n",
	"#%RAML 1.0 Library\nusage: x\ntypes:\n  A:\n    minLength: x #!\n", "#%RAML 1.0 Library\ntypes:\n  A: string\n  B: Nope #!\n",
	"#%RAML 1.0 Library\ntypes:\n  A: string\n  B: [ #!\n", "#%RAML 1.0 DataType #!\ntype: string\n", "text #!\n",
	"#%RAML 1.0 DataType\nproperties:\n  a: 5 #!\n  b: Nope #!\n", "#%RAML 1.0 DataType\ntype: string\ndescription: d\nminLength: x #!\n",
	"#%RAML 1.0 DataType\ntype: string\ndescription: d\nexample: !include nope.json #!\n",
	"#%RAML 1.0 Library\nuses: {z: nope.raml} #!\n", "#%RAML 1.0 DataType\nuses:\n  z: nope.raml #!\ntype: string\n", "- a #!\n- b\n",
	"#%RAML 1.0 Library\nuses: {z: good.raml}\ntypes:\n  A: z.Nope #!\n",
}

// VH_C19_files: a file that cannot be used is reported where it is referred to, and its own fault in the file.
func VH_C19_files() {
	x := ndInt("x")
	files := map[string]string{}
	t := "types:\n  I:\n    minimum: " + vPlace(x) + "\n"
	lib := ""
	ref := ndChoice(10, "reference")
	faults := "."
	switch ref {
	case 0:
		lib = "uses:\n  g: good.raml\n  f: f.raml #!\n" + t
	case 1:
		lib = t + "  F: !include f.raml #!\n"
	case 2:
		lib = t + "  F:\n    properties:\n      a: string\n      b:\n        type: !include f.raml #!\n"
	case 3:
		lib = t + "  F:\n    type: string\n    examples: !include f.raml #!\n"
	case 4: // through a library that is all right
		lib = "uses:\n  h: h.raml #?\n" + t
		c19All(files, "h.raml", "#%RAML 1.0 Library\nusage: u\nuses:\n  g: good.raml\n  f: f.raml #!\n")
	case 5:
		lib = t + "  F:\n    type: array\n    items: !include h.raml #?\n"
		c19All(files, "h.raml", "#%RAML 1.0 DataType\nusage: u\nproperties:\n  a: !include f.raml #!\n")
	case 6:
		lib = t + "  F: !include h.raml #?\n"
		c19All(files, "h.raml", "#%RAML 1.0 DataType\nusage: u\nuses:\n  f: f.raml #!\ntype: string\n")
	case 7:
		lib = t + "annotationTypes:\n  n: !include f.raml #!\n"
	case 8, 9: // two of them; each is reported
		lib = "uses:\n  f: f.raml #!a\n  g: good.raml\n  e: e.raml #!b\n" + t
		if ref == 9 {
			lib = "uses:\n  e: e.raml #!b\n  g: good.raml\n  f: f.raml #!a\n" + t
		}
		c19All(files, "e.raml", "#%RAML 1.0 Library\nusage: u\ntypes: [a] #!\n")
		faults = "ab"
	}
	c19All(files, "good.raml", "#%RAML 1.0 Library\ntypes:\n  A: string\n")
	k := ndChoice(len(c19Files), "file")
	files[vDir()+"/f.raml"], files[vDir()+"/nope.raml"], files[vDir()+"/nope.json"] = "", "", ""
	if k > 0 {
		c19All(files, "f.raml", c19Files[k])
	}
	c19All(files, "lib.raml", "#%RAML 1.0 Library\n"+lib)
	_, err := ParseFromPath(vDir() + "/lib.raml")
	if err == nil {
		vReach("accepted")
		return
	}
	if k == 5 || k == 15 { // the library can be read and its names are unknown: that is a later step
		faults = strings.Trim(faults, "a")
		if faults == "" {
			faults = "."
		}
	}
	why := c19Judge(files, faults, err)
	vAssert(why == "", "the error leads to the fault: "+why)
	vReach("error")
}

// c19Model has a mark at every declaration.
var c19Model = [][2]string{
	{"lib.raml", `#%RAML 1.0 Library
uses:
  l: l.raml
annotationTypes:
  n: string
  o:
    description: @@
(n): @@
types:
  A:
    description: @@
    type: object
    (n): @@
    facets:
      f1:
        description: @@
      f2?:
        type: object
        properties:
          p1:
            description: @@
            default: @@
    properties:
      a:
        description: @@
        (n): @@
        default: @@
      b?:
        type: array
        description: @@
        items:
          description: @@
          type: string
          example: @@
      /x/:
        properties:
          c:
            description: @@
            enum:
              - @@
              - @@
  B:
    type: A
    description: @@
    f1: @@
    properties:
      a:
        type: string
        description: @@
        examples:
          e1: @@
          e2: @@
      d: !include d.raml
  C:
    type: l.U | string
    description: @@
    default: @@
  E:
    type: string
    example:
      (n): @@
      value: @@
  F:
    type: integer | string
    examples:
      e3:
        (n): @@
        value: @@
  G:
    type: B
    description: @@
    (n): @@
    f1: @@
  H:
    type: [A, l.O]
    description: @@
    f1: @@
    (n): @@
  I:
    type: string
    description: @@
    pattern: a
    minLength: 0
    examples: !include e.raml
`},
	{"l.raml", `#%RAML 1.0 Library
usage: text
types:
  U:
    description: @@
    type: object
    properties:
      a:
        description: @@
      b: !include d.raml
  O:
    properties:
      h:
        description: @@
        example: @@
`},
	{"d.raml", `#%RAML 1.0 DataType
description: @@
uses:
  l: l.raml
properties:
  k:
    description: @@
    default: @@
  u: l.U[]
`},
	{"e.raml", `#%RAML 1.0 NamedExample
a1: @@
a2: @@
`},
}

// c19Walk checks the places of a shape and everything below it.
type c19Walk struct {
	seen  map[*BaseShape]bool
	files map[string]string
	bad   string
	n     int

	unwrapped bool
}

func (w *c19Walk) at(file, mark string, pos stacktrace.Position, what byte, name string) {
	w.n++
	s, ok := w.files[file]
	if !ok || !strings.Contains(s, mark) {
		w.bad += name + " is not of its file; "
	} else if !c19At(mark, pos, what) {
		w.bad += name + " is not at its place; "
	}
}

// own returns the mark of the description in the declaration that begins at this place ("" if it
// has none, and inherits it if at all), and whether something begins there.
func (w *c19Walk) own(file string, pos stacktrace.Position) (string, bool) {
	lines := strings.Split(w.files[file], "\n")
	if pos.Line < 1 || pos.Line > len(lines) || pos.Column < 1 || pos.Column > len(lines[pos.Line-1]) {
		return "", false
	}
	indent := lines[pos.Line-1][:pos.Column-1]
	if c := lines[pos.Line-1][pos.Column-1]; c == ' ' || c == '#' || indent != "" && !strings.HasSuffix(indent, " ") && !strings.HasSuffix(indent, "[") {
		return "", false
	}
	if strings.Trim(indent, " ") == "" {
		for _, l := range lines[pos.Line-1:] {
			if !strings.HasPrefix(l, indent) {
				break
			}
			if l = l[len(indent):]; strings.HasPrefix(l, "description: ") {
				return l[len("description: "):], true
			}
		}
	}
	return "", true
}

func (w *c19Walk) node(n *Node, what byte, name string) {
	if n == nil {
		return
	}
	if m, ok := c19IsMark(n.Value); ok {
		w.at(n.Location, m, n.Position, what, name)
	}
}

func (w *c19Walk) extensions(b *orderedmap.OrderedMap[string, *DomainExtension]) {
	for p := b.Oldest(); p != nil; p = p.Next() {
		w.node(p.Value.Extension, 'V', "the value of an annotation")
		if m, ok := c19IsMark(p.Value.Extension.Value); ok {
			w.at(p.Value.Location, m, p.Value.Position, 'C', "an annotation")
		}
	}
}

func (w *c19Walk) example(e *Example) {
	if e == nil {
		return
	}
	w.node(e.Data, 'V', "the value of an example")
	if e.CustomDomainProperties.Len() > 0 { // an explicit example begins with its annotation
		w.extensions(e.CustomDomainProperties)
		for p := e.CustomDomainProperties.Oldest(); p != nil; p = p.Next() {
			if m, ok := c19IsMark(p.Value.Extension.Value); ok {
				w.at(e.Location, m, e.Position, 'C', "an explicit example")
			}
		}
	} else if m, ok := c19IsMark(e.Data.Value); ok {
		w.at(e.Location, m, e.Position, 'V', "an example")
	}
}

func (w *c19Walk) shape(b *BaseShape) {
	if b == nil || w.seen[b] {
		return
	}
	w.seen[b] = true
	if _, ok := w.files[b.Location]; !ok {
		w.bad += "a shape is of no file; "
	}
	if b.Description != nil {
		if m, ok := c19IsMark(*b.Description); ok {
			w.n++
			// an operand of an expression stands at the place of the expression
			own, ok := w.own(b.Location, b.Position)
			if !ok {
				w.bad += "a type is at no place of its file; "
			} else if own != m && (!w.unwrapped || own != "" && b.Name != "") {
				w.bad += "a type is not at its place " + b.Name + strings.TrimPrefix(b.Location, vDir()) + ":" + strconv.Itoa(b.Position.Line) + ":" + strconv.Itoa(b.Position.Column) + m + "/" + own + "; "
			}
		}
	}
	w.extensions(b.CustomDomainProperties)
	for p := b.CustomShapeFacets.Oldest(); p != nil; p = p.Next() {
		w.node(p.Value, 'V', "a custom facet")
	}
	for p := b.CustomShapeFacetDefinitions.Oldest(); p != nil; p = p.Next() {
		w.shape(p.Value.Base)
	}
	w.node(b.Default, 'V', "a default")
	w.example(b.Example)
	if b.Examples != nil && b.Examples.Map != nil {
		for p := b.Examples.Map.Oldest(); p != nil; p = p.Next() {
			w.example(p.Value)
		}
	}
	switch s := b.Shape.(type) {
	case *StringShape:
		for _, e := range s.Enum {
			w.node(e, 'V', "an enum value")
		}
	}
	for _, c := range vChildren(b, true) {
		w.shape(c)
	}
}

// VH_C19_model: every part of the model knows the file and the place where it stands.
func VH_C19_model() {
	x := ndInt("x")
	mode := ndChoice(3, "mode")
	entry := ndChoice(3, "entry point")
	shift := ndChoice(3, "lines above")
	files := map[string]string{}
	for i, f := range c19Model {
		s := f[1]
		if shift > 0 && i > 0 || shift > 1 {
			s = strings.Replace(s, "\n", "\n#\n\n", 1)
		}
		s = strings.ReplaceAll(s, "pattern: a\n    minLength: 0\n", "maxLength: "+vPlace(x)+"\n    minLength: 0\n")
		c19All(files, f[0], c19Fill(s, []string{"lib", "use", "data", "example"}[i]))
	}
	vAssume(x >= 1000)
	var opts []ParseOpt
	if mode > 0 {
		opts = append(opts, OptWithUnwrap())
	}
	if mode > 1 {
		opts = append(opts, OptWithValidate())
	}
	r, err := ParseFromPath(vDir()+"/"+c19Model[entry][0], opts...)
	vAssert(err == nil, "the documents are accepted")
	w := &c19Walk{seen: map[*BaseShape]bool{}, files: files, unwrapped: mode > 0}
	w.lib(r, vDir()+"/lib.raml")
	w.lib(r, vDir()+"/l.raml")
	if d, ok := r.GetFragment(vDir() + "/d.raml").(*DataType); ok && d != nil {
		vAssert(d.GetLocation() == vDir()+"/d.raml", "a data type knows its file")
		w.shape(d.Shape)
		for p := d.Uses.Oldest(); p != nil; p = p.Next() {
			w.uses(p.Value)
		}
	}
	if e, ok := r.GetFragment(vDir() + "/e.raml").(*NamedExample); ok && e != nil {
		vAssert(e.GetLocation() == vDir()+"/e.raml", "a named example knows its file")
		for p := e.Map.Oldest(); p != nil; p = p.Next() {
			w.example(p.Value)
		}
	}
	vAssert(r.GetLocation() == vDir()+"/"+c19Model[entry][0], "the parser knows the entry point's file")
	vAssert(w.bad == "", "everything knows its place: "+w.bad)
	vObs("places", w.n > 9)
	vReach("model")
}

func (w *c19Walk) uses(l *LibraryLink) {
	s := strings.Split(w.files[l.Location], "\n")
	if l.Position.Line < 1 || l.Position.Line > len(s) || !strings.HasSuffix(s[l.Position.Line-1], ": "+l.Value) || l.Position.Column != len(s[l.Position.Line-1])-len(l.Value)+1 {
		w.bad += "a used library is not at its place; "
	}
}

func (w *c19Walk) lib(r *RAML, path string) {
	l, ok := r.GetFragment(path).(*Library)
	if !ok || l == nil {
		return
	}
	if l.GetLocation() != path {
		w.bad += "a library does not know its file; "
	}
	for p := l.Uses.Oldest(); p != nil; p = p.Next() {
		w.uses(p.Value)
	}
	w.extensions(l.CustomDomainProperties)
	for p := l.AnnotationTypes.Oldest(); p != nil; p = p.Next() {
		w.shape(p.Value)
	}
	for p := l.Types.Oldest(); p != nil; p = p.Next() {
		w.shape(p.Value)
	}
}
