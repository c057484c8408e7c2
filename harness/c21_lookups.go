package raml

//use: common.go c14_schema.go gen.go c02_generic.go c22_determinism.go c18_start.go
//bound: 29 documents of up to four files (those of C18 and two with everything in them), parsed in four modes and taken through up to two (thorough: three) more steps (unwrapping, validating, parsing the same or another file again), with a symbolic facet; every name declared in a file, every name that it can refer to and three that are not there
//assume: a file that others refer to is not read anew (they keep what they referred to); which look-ups list the type of a DataType file (by the name of the file) is left open, and so are the shapes that a user unwraps one by one

import (
	"strings"

	orderedmap "github.com/wk8/go-ordered-map/v2"
)

var _ = vReg("VH_C21_lookups", VH_C21_lookups)

func c21Docs(lo int64) []c22Doc {
	m := vPlace(lo)
	L := func(s string) string { return "#%RAML 1.0 Library\n" + s }
	D := func(s string) string { return "#%RAML 1.0 DataType\n" + s }
	return append(c18Docs(lo, 0),
		c22Doc{files: [][2]string{
			{"a.raml", L("uses: {l: l.raml}\nannotationTypes:\n  M: {type: integer, minimum: " + m + "}\n  K: l.O\n  A: string\n(M): 9\ntypes:\n  A: {type: integer, minimum: " + m + ", (l.N): q}\n  B: A\n  P: {type: l.O, f: q, properties: {b: \"A[]\", c: {type: A, (M): 9}}}\n  D: !include d.raml\n  R: {properties: {\"n?\": R, d: !include d.raml}}\n  U: A | l.C\n  J: '{\"type\":\"string\"}'\n  I: {type: [P, Q], (A): x}\n  Q: {properties: {q: {type: string, (l.N): r, example: {value: s, (M): 9}}, \"o?\": {type: string, (l.N): r, example: {value: s, (M): 9}}}}\n  T: {type: R, example: {d: {z: true, a: 1}, n: {d: {z: false, a: 2}}}}\n")},
			{"l.raml", L("annotationTypes: {N: string}\ntypes:\n  C: boolean\n  O: {properties: {a: integer, /x/: string}, facets: {\"f?\": {type: string, (N): s}}}\n  Al: C\n  N: O\n")},
			{"d.raml", D("uses: {l: l.raml}\ntype: l.O\n(l.N): x\nproperties: {z: {type: l.C, (l.N): y}}\n")}}},
		c22Doc{files: [][2]string{
			{"a.raml", D("uses: {l: l.raml}\ntype: array\nitems: {type: l.B, properties: {k: {type: integer, minimum: " + m + "}}}\n")},
			{"l.raml", L("uses: {k: k.raml}\ntypes:\n  B: {properties: {\"b?\": \"B[]\", c: k.X | k.Y | B}}\n  T: {type: B, facets: {h: B}}\n")},
			{"k.raml", L("uses: {l: l.raml}\ntypes:\n  X: {properties: {\"l?\": l.B, \"x?\": X}}\n  Y: {type: X, properties: {\"y?\": \"(X | Y)[]\"}}\n  Z: l.T\n")}}},
	)
}

type c21Walk struct {
	bad   string
	reach []*BaseShape
	in    map[*BaseShape]bool
	ext   map[*DomainExtension]bool
	n     int
}

func (w *c21Walk) wrong(s string) {
	if w.bad == "" {
		w.bad = s
	}
}

func (w *c21Walk) extensions(m *orderedmap.OrderedMap[string, *DomainExtension]) {
	for p := m.Oldest(); p != nil; p = p.Next() {
		w.ext[p.Value] = true
	}
}

func (w *c21Walk) example(e *Example) {
	if e != nil {
		w.extensions(e.CustomDomainProperties)
	}
}

func (w *c21Walk) shape(b *BaseShape) {
	// A type consists of those in it and those it inherits from, some of which have no name.
	queue := []*BaseShape{b}
	for i := 0; i < len(queue); i++ {
		s := queue[i]
		if w.in[s] {
			continue
		}
		w.in[s] = true
		queue = append(append(queue, vChildren(s, false)...), s.Inherits...)
		w.reach = append(w.reach, s)
		w.extensions(s.CustomDomainProperties)
		w.example(s.Example)
		if s.Examples != nil && s.Examples.Map != nil {
			for p := s.Examples.Map.Oldest(); p != nil; p = p.Next() {
				w.example(p.Value)
			}
		}
	}
}

// uses checks what a file can refer to with the alias of a library.
func (w *c21Walk) uses(r *RAML, loc string, f Fragment, uses *orderedmap.OrderedMap[string, *LibraryLink]) {
	for p := uses.Oldest(); p != nil; p = p.Next() {
		l := p.Value.Link
		if l == nil || r.GetFragment(l.Location) != Fragment(l) {
			w.wrong("a used library is not the one that is read")
			continue
		}
		for q := l.Types.Oldest(); q != nil; q = q.Next() {
			b, err := r.GetReferencedType(p.Key+"."+q.Key, loc)
			c, err2 := f.GetReferenceType(p.Key + "." + q.Key)
			if err != nil || err2 != nil || b != q.Value || c != b {
				w.wrong("a reference is not to the declared type")
			}
		}
		for q := l.AnnotationTypes.Oldest(); q != nil; q = q.Next() {
			b, err := r.GetReferencedAnnotationType(p.Key+"."+q.Key, loc)
			c, err2 := f.GetReferenceAnnotationType(p.Key + "." + q.Key)
			if err != nil || err2 != nil || b != q.Value || c != b {
				w.wrong("a reference is not to the declared annotation type")
			}
		}
		if _, err := r.GetReferencedType(p.Key+".none", loc); err == nil {
			w.wrong("a reference to nothing")
		}
	}
	if _, err := r.GetReferencedType("none", loc); err == nil {
		w.wrong("a reference to nothing")
	}
	if _, err := r.GetReferencedAnnotationType("x.none", loc); err == nil {
		w.wrong("a reference to nothing")
	}
}

func (w *c21Walk) file(r *RAML, loc string) {
	f := r.GetFragment(loc)
	if f == nil {
		return
	}
	w.n++
	if f.GetLocation() != loc {
		w.wrong("a file does not know where it is")
	}
	switch f := f.(type) {
	case *Library:
		w.extensions(f.CustomDomainProperties)
		for p := f.Types.Oldest(); p != nil; p = p.Next() {
			w.shape(p.Value)
			b, err := r.GetTypeFromFragmentPtr(loc, p.Key)
			c, err2 := r.GetReferencedType(p.Key, loc)
			if err != nil || err2 != nil || b != p.Value || c != b || r.GetFragmentTypePtrs(loc)[p.Key] != b || b.Name != p.Key {
				w.wrong("a declared type is not looked up")
			}
		}
		for p := f.AnnotationTypes.Oldest(); p != nil; p = p.Next() {
			w.shape(p.Value)
			b, err := r.GetAnnotationTypeFromFragmentPtr(loc, p.Key)
			c, err2 := r.GetReferencedAnnotationType(p.Key, loc)
			if err != nil || err2 != nil || b != p.Value || c != b || b.Name != p.Key {
				w.wrong("a declared annotation type is not looked up")
			}
		}
		if len(r.GetFragmentTypePtrs(loc)) != f.Types.Len() {
			w.wrong("a type that is not declared is listed")
		}
		if b, _ := r.GetTypeFromFragmentPtr(loc, "none"); b != nil {
			w.wrong("a type that is not declared is looked up")
		}
		w.uses(r, loc, f, f.Uses)
	case *DataType:
		if f.Shape != nil {
			w.shape(f.Shape)
		}
		w.uses(r, loc, f, f.Uses)
	case *NamedExample:
		for p := f.Map.Oldest(); p != nil; p = p.Next() {
			w.example(p.Value)
		}
	}
}

// VH_C21_lookups: what a parser lists and looks up is what its documents hold.
func VH_C21_lookups() {
	lo := ndInt("lo")
	docs := c21Docs(lo)
	d := docs[ndChoice(len(docs), "document")]
	c18Files(d)
	path := vDir() + "/"
	r, err := ParseFromPath(path+d.files[0][0], c22Opts(ndChoice(4, "mode"))...)
	if err != nil {
		return
	}
	other := false
	most := 3
	if vThorough {
		most = 4
	}
	for i := ndChoice(most, "more steps"); i > 0; i-- {
		switch ndChoice(4, "step") {
		case 0:
			err = r.UnwrapShapes()
		case 1:
			err = r.ValidateShapes()
		case 2:
			for _, f := range d.files[1:] {
				vAssume(!strings.Contains(f[1], "a.raml"))
			}
			err = r.ParseFromPath(path+d.files[0][0], c22Opts(ndChoice(2, "again"))...)
		case 3:
			other = true
			err = r.ParseFromString("#%RAML 1.0 Library\nuses: {a: "+d.files[len(d.files)-1][0]+"}\nannotationTypes: {oo: integer}\ntypes:\n  O: {type: string, (oo): 4}\n  OO: {properties: {o: O, \"p?\": OO}}\n", "other.raml", vDir(), c22Opts(ndChoice(2, "again"))...)
		}
		if err != nil {
			return
		}
	}
	w := &c21Walk{in: map[*BaseShape]bool{}, ext: map[*DomainExtension]bool{}}
	for _, f := range d.files {
		w.file(r, path+f[0])
	}
	if other {
		w.file(r, path+"other.raml")
	}
	vAssert(w.bad == "", "the look-ups agree with the files: "+w.bad)
	seen, ids := map[*BaseShape]bool{}, map[int64]bool{}
	for _, s := range r.GetShapes() {
		vAssert(!seen[s], "every shape is listed once")
		vAssert(!ids[s.ID], "different shapes have different identifiers")
		vAssert(w.in[s], "a listed shape is one of the model")
		seen[s], ids[s.ID] = true, true
	}
	for _, s := range w.reach {
		vAssert(seen[s], "every shape of the model is listed")
	}
	all, ptrs := r.GetAllAnnotations(), r.GetAllAnnotationsPtr()
	vAssert(len(all) == len(ptrs), "both lists of annotations are the same")
	listed := map[*DomainExtension]bool{}
	for i, de := range ptrs {
		vAssert(!listed[de], "every annotation is listed once")
		listed[de] = true
		vAssert(w.ext[de], "a listed annotation is one of the model")
		vAssert(all[i].Name == de.Name && all[i].DefinedBy == de.DefinedBy && all[i].Extension == de.Extension, "both lists of annotations are the same")
		vAssert(de.DefinedBy != nil && w.in[de.DefinedBy], "an annotation is defined by a declared annotation type")
		if b := de.DefinedBy; b != nil {
			c, err := r.GetAnnotationTypeFromFragmentPtr(b.Location, b.Name)
			vAssert(err == nil && c == b, "an annotation is defined by a declared annotation type")
			e, err := r.GetReferencedAnnotationType(de.Name, de.Location)
			vAssert(err == nil && e == b, "an annotation is defined by the type of its name")
		}
	}
	n := 0
	for de := range w.ext {
		if !listed[de] {
			n++
		}
	}
	vAssert(n == 0, "every annotation of the model is listed")
	vObs("files", w.n)
	vReach("looked up")
}
