bug("C18-leading-blank", "C18", [("parse.go", '	head = strings.TrimRight(head, "\\r\\n ")\n', '	head = strings.TrimSpace(head)\n')],
 "a file whose first line has a blank before the header", "the file is accepted as if the line were exactly the header",
 '''
	if _, err := ParseFromString(" #%RAML 1.0 Library\\ntypes: {A: string}\\n", "lib.raml", t.TempDir()); err == nil {
		t.Fatal("accepted")
	}
''')
bug("C18-inner-blanks", "C18", [("parse.go", '	switch head {\n	case "#%RAML 1.0 Library"', '	switch strings.Join(strings.Fields(head), " ") {\n	case "#%RAML 1.0 Library"')],
 "a file whose first line has two blanks or a tab between the words of the header", "the file is accepted as if the line were exactly the header",
 '''
	if _, err := ParseFromString("#%RAML 1.0\\tDataType\\ntype: string\\n", "d.raml", t.TempDir()); err == nil {
		t.Fatal("accepted")
	}
''')
bug("C18-validate-in-place", "C18", [("validate.go", "		shape = shape.CloneDetached()\n", "		shape = shape.CloneShallow()\n")],
 "validation without unwrapping of a type with a nested type, and a look at the model afterwards", "validation unwraps the nested types of the model",
 '''
	r, err := ParseFromString("#%RAML 1.0 Library\\ntypes:\\n  B: {type: integer, minimum: 3}\\n  A: {properties: {p: {type: B, maximum: 5}}}\\n", "lib.raml", t.TempDir(), OptWithValidate())
	if err != nil {
		t.Fatal(err)
	}
	p, _ := zzGet(t, r, "A").Shape.(*ObjectShape).Properties.Get("p")
	if p.Base.IsUnwrapped() {
		t.Fatal("the validation changed the model")
	}
''')
bug("C21-annotation-on-one-line", "C21", [("extension.go", "	r.domainExtensions = append(r.domainExtensions, de)\n", "	for _, known := range r.domainExtensions {\n		// A type that is decoded twice must not list its annotations twice.\n		if known.Location == location && known.Name == name && known.Line == de.Line {\n			return name, de, nil\n		}\n	}\n	r.domainExtensions = append(r.domainExtensions, de)\n")],
 "two annotations of the same name on one line of a file", "only the first is listed, the other one is never resolved",
 '''
	r := zzMust(t, "annotationTypes: {n: string}\\ntypes:\\n  A: {properties: {p: {type: string, (n): a}, q: {type: string, (n): b}}}\\n")
	if n := len(r.GetAllAnnotations()); n != 2 {
		t.Fatal(n)
	}
''')
bug("C21-transitive-annotation", "C21", [("fragment.go", "	ref, ok = lib.Link.AnnotationTypes.Get(after)\n	if !ok {\n		return nil, fmt.Errorf(\"reference \\\"%s\\\" not found\", after)\n	}\n\n	return ref, nil\n}\n\nfunc (dt *DataType) GetLocation", "	ref, err := lib.Link.GetReferenceAnnotationType(after)\n	if err != nil {\n		return nil, fmt.Errorf(\"reference \\\"%s\\\" not found\", after)\n	}\n\n	return ref, nil\n}\n\nfunc (dt *DataType) GetLocation"), ("fragment.go", "	var ref *BaseShape\n\n	if !found {\n		return nil, fmt.Errorf(\"invalid reference %s\", refName)\n	}\n	// NOTE: DataType does not define local types, only references to library types\n	lib, ok := dt.Uses.Get(before)\n	if !ok {\n		return nil, fmt.Errorf(\"library \\\"%s\\\" not found\", before)\n	}\n	ref, err := lib", "	if !found {\n		return nil, fmt.Errorf(\"invalid reference %s\", refName)\n	}\n	// NOTE: DataType does not define local types, only references to library types\n	lib, ok := dt.Uses.Get(before)\n	if !ok {\n		return nil, fmt.Errorf(\"library \\\"%s\\\" not found\", before)\n	}\n	ref, err := lib")],
 "a data type that looks up an annotation type of a library that is used by a library that it uses, through both aliases", "the look-up finds a type that the name does not denote",
 '''
	r := zzMust(t, "types:\\n  A: !include d.raml\\n", "d.raml", "#%RAML 1.0 DataType\\nuses:\\n  l: l.raml\\ntype: string\\n", "l.raml", "#%RAML 1.0 Library\\nuses:\\n  k: k.raml\\n", "k.raml", "#%RAML 1.0 Library\\nannotationTypes:\\n  n: string\\n")
	for loc := range r.fragmentsCache {
		if filepath.Base(loc) != "d.raml" {
			continue
		}
		if _, err := r.GetReferencedAnnotationType("l.k.n", loc); err == nil {
			t.Fatal("found")
		}
	}
''')
bug("C13-facet-definition-not-marked", "C13", [("unwrap.go", "			prop.Base = rs\n			base.CustomShapeFacetDefinitions.Set(pair.Key, prop)\n", "			prop.Base = rs\n")],
 "a type with a custom facet definition whose type contains the type it stands in", "the recursion is not marked and a traversal of the types never ends",
 '''
	r := zzMust(t, "types:\\n  A:\\n    properties:\\n      b?: B\\n  B:\\n    type: object\\n    facets:\\n      f?:\\n        type: array\\n        items: B\\n    properties:\\n      a?: A\\n")
	_ = r
	var n int
	var walk func(b *BaseShape)
	walk = func(b *BaseShape) {
		if n++; n > 10000 {
			t.Fatal("the traversal does not end")
		}
		switch s := b.Shape.(type) {
		case *ObjectShape:
			for p := s.Properties.Oldest(); p != nil; p = p.Next() {
				walk(p.Value.Base)
			}
		case *ArrayShape:
			if s.Items != nil {
				walk(s.Items)
			}
		}
		for p := b.CustomShapeFacetDefinitions.Oldest(); p != nil; p = p.Next() {
			walk(p.Value.Base)
		}
	}
	walk(zzGet(t, r, "A"))
	walk(zzGet(t, r, "B"))
''')
bug("C10-open-parenthesis", "C10", [("extension.go", "	return name != \"\" && name[0] == '(' && name[len(name)-1] == ')'\n", "	return name != \"\" && name[0] == '('\n")],
 "a key that is an opening parenthesis alone", "the parser panics",
 '''
	_, _ = zzLib(t, "types:\\n  A:\\n    type: string\\n    '(': x\\n")
''')
bug("C06-link-shared", "C06", [("shape.go", "		l := *s.Link\n		c.Link = &l\n		c.Link.Shape = s.Link.Shape.clone(clonedMap)\n", "		s.Link.Shape.clone(clonedMap)\n")],
 "a copy of a type that includes a data type, made before unwrapping, and a change of the data type", "the copy refers to the original data type",
 '''
	d := t.TempDir()
	if err := os.WriteFile(filepath.Join(d, "d.raml"), []byte("#%RAML 1.0 DataType\\ntype: string\\n"), 0o600); err != nil {
		t.Fatal(err)
	}
	r, err := ParseFromString("#%RAML 1.0 Library\\ntypes:\\n  A: !include d.raml\\n", "lib.raml", d)
	if err != nil {
		t.Fatal(err)
	}
	a := zzGet(t, r, "A")
	if c := a.CloneDetached(); a.Link == nil || c.Link == a.Link || c.Link.Shape == a.Link.Shape {
		t.Fatal("shared")
	}
''')
bug("C09-union-member-default", "C09", [("validate.go", "	case *UnionShape:\n		for _, item := range shape.AnyOf {\n			if err := r.validateShapeCommons(item); err != nil {", "	case *UnionShape:\n		for _, item := range shape.AnyOf {\n			if item.Name != \"\" {\n				// Declared types are validated on their own.\n				continue\n			}\n			if err := r.validateShapeCommons(item); err != nil {")],
 "a wrong default below a union member of a type that is not declared by itself", "the default goes unnoticed",
 '''
	if _, err := zzLib(t, "types:\\n  C:\\n    type: [O, U]\\n    default: x\\n  O: integer\\n  U: V | W\\n  V:\\n    type: integer\\n    maximum: 5\\n  W:\\n    type: integer\\n    maximum: 9\\n"); err == nil {
		t.Fatal("accepted")
	}
''')
bug("C14-number-precision", "C14", [("jsonschemaconv.go", "	if s.Maximum != nil {\n		schema.Maximum = json.Number(strconv.FormatFloat(*s.Maximum, 'f', -1, 64))", "	if s.Maximum != nil {\n		schema.Maximum = json.Number(strconv.FormatFloat(*s.Maximum, 'f', 6, 64))")],
 "a number type whose maximum needs more than six decimal places", "the maximum of the schema is another one",
 '''
	r := zzMust(t, "types:\\n  A:\\n    type: number\\n    maximum: 0.00000025\\n")
	c, err := NewJSONSchemaConverter[*JSONSchema]()
	_ = err
	s, err := c.Convert(zzGet(t, r, "A").Shape)
	if err != nil {
		t.Fatal(err)
	}
	if d, ok := s.Definitions["A"]; ok {
		s = d
	}
	if f, err := s.Maximum.Float64(); err != nil || f != 0.00000025 {
		t.Fatal(s.Maximum)
	}
''')
bug("C14-http-date", "C14", [("jsonschemaconv.go", '([0-3][0-9]) " +', '([0-2][0-9]) " +')],
 "a value of a datetime type with the format rfc2616 on the last days of a month", "the type accepts it and its schema does not",
 '''
	r := zzMust(t, "types:\\n  A:\\n    type: datetime\\n    format: rfc2616\\n")
	c, err := NewJSONSchemaConverter[*JSONSchema]()
	_ = err
	s, err := c.Convert(zzGet(t, r, "A").Shape)
	if err != nil {
		t.Fatal(err)
	}
	if !regexp.MustCompile(s.Pattern).MatchString("Sun, 31 May 2026 08:49:37 GMT") {
		t.Fatal(s.Pattern)
	}
''', "regexp")
bug("C07-alias-annotations", "C07", [("shape.go", "	s.CustomDomainProperties = source.CustomDomainProperties\n	return s, nil\n", "	if s.CustomDomainProperties.Len() > 0 {\n		s.CustomDomainProperties = source.CustomDomainProperties\n	}\n	return s, nil\n")],
 "an alias of an annotated type", "the alias has no annotations",
 '''
	r := zzMust(t, "annotationTypes: {n: string}\\ntypes:\\n  A: {type: string, (n): a}\\n  B: A\\n")
	if zzGet(t, r, "B").CustomDomainProperties.Len() != 1 {
		t.Fatal("lost")
	}
''')
bug("C08-empty-object-counts", "C08", [("complex.go", "	if s.MinProperties != nil && s.MaxProperties != nil && *s.MinProperties > *s.MaxProperties {", "	if s.Properties.Len() > 0 && s.MinProperties != nil && s.MaxProperties != nil && *s.MinProperties > *s.MaxProperties {")],
 "an object type without declared properties, with minProperties above maxProperties", "the contradiction goes unnoticed",
 '''
	if _, err := zzLib(t, "types:\\n  A:\\n    type: object\\n    minProperties: 3\\n    maxProperties: 2\\n"); err == nil {
		t.Fatal("accepted")
	}
''')
