bug("C02-hash-text", "C02", [("complex.go", "	data, err := json.Marshal(v)\n	if err != nil {\n		return 0, fmt.Errorf(\"marshal: %w\", err)\n	}\n", "	data := []byte(fmt.Sprint(v))\n"), ("complex.go", '	"encoding/json"\n	"fmt"\n	"regexp"', '	"fmt"\n	"regexp"'), ("complex.go", "	var schema *JSONSchema\n", "	var schema *JSONSchema\n")] if False else [("complex.go", "	data, err := json.Marshal(v)\n	if err != nil {\n		return 0, fmt.Errorf(\"marshal: %w\", err)\n	}\n", "	data, err := json.Marshal(fmt.Sprint(v))\n	if err != nil {\n		return 0, fmt.Errorf(\"marshal: %w\", err)\n	}\n")],
 "an array with unique items of any kind that holds a number and the text of that number", "the items count as duplicates",
 '''
	r := zzMust(t, "types:\\n  A:\\n    type: array\\n    uniqueItems: true\\n")
	if err := zzGet(t, r, "A").Validate([]any{"1", 1}); err != nil {
		t.Fatal(err)
	}
''')
bug("C08-union-any", "C08", [("complex.go", "	for _, item := range s.AnyOf {\n		if err := item.Check(); err != nil {\n", "	for i, item := range s.AnyOf {\n		// A union is usable as long as its last member is.\n		if err := item.Check(); err != nil && i == len(s.AnyOf)-1 {\n")],
 "a union with a contradictory member that is not the last", "the contradiction goes unnoticed",
 '''
	if _, err := zzLib(t, "types:\\n  A:\\n    properties:\\n      a: integer\\n  B: (B1 | string)\\n  B1: string\\n  C:\\n    type: array\\n    items: D | string\\n  D:\\n    type: integer\\nannotationTypes:\\n  n: N | nil\\n"); err == nil {
		t.Fatal("N is not declared")
	}
	r := New(nil)
	b, _, _ := r.MakeNewShape("a", TypeInteger, "x", stacktrace.Position{})
	lo, hi := big.NewInt(5), big.NewInt(1)
	b.Shape.(*IntegerShape).Minimum, b.Shape.(*IntegerShape).Maximum = lo, hi
	s, _, _ := r.MakeNewShape("b", TypeString, "x", stacktrace.Position{})
	u := &UnionShape{BaseShape: &BaseShape{}, UnionFacets: UnionFacets{AnyOf: []*BaseShape{b, s}}}
	if u.check() == nil {
		t.Fatal("not found")
	}
''', "math/big github.com/acronis/go-stacktrace")
bug("C14-pattern-slash", "C14", [("jsonschemaconv.go", "			k = k[1 : len(k)-1]\n", "			k = strings.Trim(k, \"/\")\n")],
 "a pattern property whose expression starts or ends with a slash", "the schema has another expression",
 '''
	r := zzMust(t, "types:\\n  A:\\n    properties:\\n      \\"//x/\\": string\\n")
	c, _ := NewJSONSchemaConverter[*JSONSchema]()
	s, err := c.Convert(zzGet(t, r, "A").Shape)
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := s.Definitions["A"].PatternProperties.Get("/x"); !ok {
		t.Fatal("lost the slash")
	}
''')
bug("C11-unique-items-kind", "C11", [("shape.go", "		case FacetMinItems, FacetMaxItems, FacetUniqueItems, FacetItems:\n", "		case FacetMinItems, FacetMaxItems, FacetItems:\n")],
 "a type with nothing but uniqueItems", "it is not an array",
 '''
	r := zzMust(t, "types:\\n  A:\\n    uniqueItems: true\\n")
	if zzGet(t, r, "A").Type != "array" {
		t.Fatal(zzGet(t, r, "A").Type)
	}
''')
bug("C11-example-after-examples", "C11", [("shape.go", "	if s.Examples != nil {\n		return StacktraceNew(\"example and examples cannot be defined together\", s.Location,\n			WithNodePosition(valueNode))\n	}\n	example, err", "	if s.Examples != nil && s.Examples.Link == nil && s.Examples.Map.Len() > 0 {\n		return StacktraceNew(\"example and examples cannot be defined together\", s.Location,\n			WithNodePosition(valueNode))\n	}\n	example, err")],
 "a type with examples from a file before an example", "it depends on the order whether it is accepted",
 '''
	f := "#%RAML 1.0 NamedExample\\na: x\\n"
	_, e1 := zzLib(t, "types:\\n  A:\\n    type: string\\n    example: x\\n    examples: !include e.raml\\n", "e.raml", f)
	_, e2 := zzLib(t, "types:\\n  A:\\n    type: string\\n    examples: !include e.raml\\n    example: x\\n", "e.raml", f)
	if (e1 == nil) != (e2 == nil) {
		t.Fatal(e1, e2)
	}
''')
bug("C04-any-parent-facets", "C04", [("shape.go", "	if s.Description == nil {\n		s.Description = sourceBase.Description\n	}\n", "	if s.Description == nil {\n		s.Description = sourceBase.Description\n	}\n	if _, ok := source.(*AnyShape); ok {\n		return s, nil\n	}\n"), ("shape.go", "	// If source type is any, return target as is\n	if _, ok := source.(*AnyShape); ok {\n		return s, nil\n	}\n\n", "")],
 "a type that inherits from a type of kind any with a custom facet", "the facet value is not inherited",
 '''
	r := zzMust(t, "types:\\n  A:\\n    type: any\\n    facets:\\n      f?: string\\n  B:\\n    type: A\\n    f: x\\n  C:\\n    type: [B]\\n    description: d\\n")
	if _, ok := zzGet(t, r, "C").CustomShapeFacets.Get("f"); !ok {
		t.Fatal("lost")
	}
	r = zzMust(t, "types:\\n  A:\\n    type: any\\n    facets:\\n      f?: string\\n  B:\\n    type: A\\n    f: x\\n  C:\\n    type: string\\n  D:\\n    type: [C, B]\\n")
	if _, ok := zzGet(t, r, "D").CustomShapeFacets.Get("f"); !ok {
		t.Fatal("lost")
	}
''')
bug("C16-skip-unwrapped", "C16", [("unwrap.go", "	if err := r.callHooks(HookBeforeUnwrapShape, base); err != nil {\n		return nil, err\n	}\n	s := base.Shape\n", "	s := base.Shape\n"), ("unwrap.go", "	// Skip already unwrapped shapes\n	if base.IsUnwrapped() {\n		return base, nil\n	}\n", "	// Skip already unwrapped shapes\n	if base.IsUnwrapped() {\n		return base, nil\n	}\n	if err := r.callHooks(HookBeforeUnwrapShape, base); err != nil {\n		return nil, err\n	}\n")],
 "a hook of UnwrapShape and a type that is unwrapped already", "the hook is not called",
 '''
	r := zzMust(t, "types:\\n  A: string\\n")
	n := 0
	r.AppendHook(HookBeforeUnwrapShape, func(ctx context.Context, r *RAML, params ...any) error { n++; return nil })
	if _, err := r.UnwrapShape(zzGet(t, r, "A")); err != nil || n != 1 {
		t.Fatal(err, n)
	}
''', "context")
bug("C12-uses-clean", "C12", [("parse.go", "		sublib, err := r.parseLibrary(filepath.Join(baseDir, include.Value))\n", "		sublib, err := r.parseLibrary(filepath.Join(baseDir, strings.TrimLeft(include.Value, \"/\")))\n")] if False else [("fragment.go", "	// External ref - <fragment>.<identifier>\n	// Local ref - <identifier>\n	return CutLast(refName, \".\")\n", "	// External ref - <fragment>.<identifier>\n	// Local ref - <identifier>\n	return strings.Cut(refName, \".\")\n"), ("fragment.go", '	"path/filepath"\n', '	"path/filepath"\n	"strings"\n')],
 "a library alias with a dot in it", "types of the library are not found",
 '''
	zzMust(t, "uses:\\n  a.b: l.raml\\ntypes:\\n  A: a.b.T\\n", "l.raml", "#%RAML 1.0 Library\\ntypes:\\n  T: string\\n")
''')
bug("C17-json-in-text", "C17", [("node.go", "	case TagTimestamp:\n		return node.Value, nil\n", "	case TagTimestamp:\n		return strings.TrimSuffix(node.Value, \"T00:00:00Z\"), nil\n")],
 "a timestamp value at midnight", "the value is not what the document says",
 '''
	r := zzMust(t, "types:\\n  A:\\n    type: datetime\\n    example: 2020-01-01T00:00:00Z\\n")
	if zzGet(t, r, "A").Example.Data.Value != "2020-01-01T00:00:00Z" {
		t.Fatal(zzGet(t, r, "A").Example.Data.Value)
	}
''')
bug("C17-key-of-a-number", "C17", [("node.go", "			key := node.Content[i].Value\n", "			key := strings.TrimSpace(node.Content[i].Value)\n")],
 "a key with a blank at its end in a value", "the key is another one",
 '''
	r := zzMust(t, "types:\\n  A:\\n    type: object\\n    example: {\\"a \\": 1}\\n")
	if _, ok := zzGet(t, r, "A").Example.Data.Value.(map[string]any)["a "]; !ok {
		t.Fatal("lost")
	}
''')
bug("C19-example-place", "C19", [("example.go", "		Position:               stacktrace.Position{Line: value.Line, Column: value.Column},\n", "		Position:               stacktrace.Position{Line: value.Line + len(value.HeadComment)/80, Column: value.Column},\n")],
 "an example below a long comment", "its place is another line",
 '''
	c := ""
	for i := 0; i < 100; i++ {
		c += "x"
	}
	r := zzMust(t, "types:\\n  A:\\n    type: object\\n    example:\\n      # "+c+"\\n      a: 1\\n")
	if l := zzGet(t, r, "A").Example.Line; l != 7 {
		t.Fatal(l)
	}
''')
bug("C20-union-members-facets", "C20", [("rdt_visitor.go", "	for i := 0; i < len(children); i += 2 {\n", "	for i := 0; i < len(children) && i < 16; i += 2 {\n")],
 "a union of more than eight members", "the rest of the members are dropped",
 '''
	r := zzMust(t, "types:\\n  A: string | integer | number | boolean | nil | file | datetime | date-only | time-only\\n")
	if n := len(zzGet(t, r, "A").Shape.(*UnionShape).AnyOf); n != 9 {
		t.Fatal(n)
	}
''')
bug("C13-array-of-self", "C13", [("unwrap.go", "	if t.Items != nil {\n		rs, err := r.FindAndMarkRecursion(t.Items)\n", "	if t.Items != nil && t.Items.Alias == nil {\n		rs, err := r.FindAndMarkRecursion(t.Items)\n")],
 "a recursive type whose cycle goes through an alias as the items of an array", "the recursion is not marked",
 '''
	done := make(chan int)
	r, err := zzLib(t, "types:\\n  A:\\n    properties:\\n      a?:\\n        type: array\\n        items: A\\n")
	_ = done
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	s := zzGet(t, r, "A")
	for s != nil && n < 10 {
		n++
		switch x := s.Shape.(type) {
		case *ObjectShape:
			p, _ := x.Properties.Get("a")
			s = p.Base
		case *ArrayShape:
			s = x.Items
		default:
			s = nil
		}
	}
	if n == 10 {
		t.Fatal("endless")
	}
''')
bug("C05-recursive-description", "C05", [("unwrap.go", "		// Reset custom shape facet definitions since traits cannot have nested traits.\n		us.CustomShapeFacetDefinitions = orderedmap.New[string, Property]()\n", "		// Reset custom shape facet definitions since traits cannot have nested traits.\n		us.CustomShapeFacetDefinitions = orderedmap.New[string, Property]()\n		if us.Alias != nil {\n			us.Alias.CustomShapeFacetDefinitions = us.CustomShapeFacetDefinitions\n		}\n")],
 "a custom facet of a declared type that has custom facets", "the declared type loses the definitions",
 '''
	r := zzMust(t, "types:\\n  A:\\n    type: string\\n    facets:\\n      f?: string\\n  B:\\n    type: object\\n    facets:\\n      g?: A\\n")
	if zzGet(t, r, "A").CustomShapeFacetDefinitions.Len() != 1 {
		t.Fatal("lost")
	}
''')
bug("C03-union-by-order", "C03", [("complex.go", "			if sourceMember.Type == targetMember.Type {\n", "			if sourceMember.Type == targetMember.Type && len(filtered) == 0 {\n")],
 "a union with two members of one kind that inherits from a union", "the second member is dropped",
 '''
	r := zzMust(t, "types:\\n  P: string | integer\\n  S1: {type: string, minLength: 5}\\n  S2: {type: string, maxLength: 2}\\n  U: S1 | S2 | integer\\n  C:\\n    type: [U, P]\\n")
	if err := zzGet(t, r, "C").Validate("x"); err != nil {
		t.Fatal(err)
	}
''')
bug("C10-facet-marks", "C10", [("extension.go", "	name := keyNode.Value[1 : len(keyNode.Value)-1]\n	if name == \"\" {\n", "	name := keyNode.Value[1 : len(keyNode.Value)-1]\n	if name[0] == ' ' {\n")],
 "an annotation with an empty name", "a crash instead of an error",
 '''
	if _, err := zzLib(t, "types:\\n  A:\\n    type: string\\n    (): x\\n"); err == nil {
		t.Fatal("accepted")
	}
''')
bug("C18-bom", "C18", [("parse.go", '	head = strings.TrimRight(head, "\\r\\n ")\n', '	head = strings.TrimRight(strings.TrimPrefix(head, "\\ufeff"), "\\r\\n ")\n')],
 "a document that begins with a byte order mark", "ReadHead and parsing disagree with the header rule",
 '''
	_, e1 := ParseFromString("\\ufeff#%RAML 1.0 Library\\ntypes: {A: string}\\n", "l.raml", t.TempDir())
	d := t.TempDir()
	os.WriteFile(filepath.Join(d, "l.raml"), []byte("\\ufeff#%RAML 1.0 Library\\ntypes: {A: string}\\n"), 0o600)
	_, e2 := ParseFromPath(filepath.Join(d, "l.raml"))
	if (e1 == nil) || (e2 == nil) {
		t.Fatal(e1, e2)
	}
''')
