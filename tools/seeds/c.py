bug("C16-prepend-in-place", "C16", [("raml.go", "	hooks = append([]HookFunc{hook}, hooks...)\n", "	hooks = append(hooks, nil)\n	copy(hooks[1:], hooks)\n	hooks[0] = hook\n")],
 "a hook that prepends another hook of the same key while it runs, with three or more hooks registered", "hooks of the running step run twice: the registered hooks are moved in place",
 '''
	r := New(context.Background())
	n := ""
	first := true
	for i := 0; i < 3; i++ {
		i := i
		r.AppendHook(HookBeforeValidateShapes, func(_ context.Context, r *RAML, _ ...any) error {
			n += string(rune('0' + i))
			if i == 0 && first {
				first = false
				r.PrependHook(HookBeforeValidateShapes, func(context.Context, *RAML, ...any) error { return nil })
			}
			return nil
		})
	}
	if err := r.ValidateShapes(); err != nil {
		t.Fatal(err)
	}
	if n != "012" {
		t.Fatal("hooks ran in this order: ", n)
	}
''', "context")
bug("C16-live-list", "C16", [("raml.go", "	for _, hook := range hooks {\n		if hook == nil {", "	for i := 0; i < len(r.getHooks(key)); i++ {\n		hook := r.getHooks(key)[i]\n		if hook == nil {"), ("raml.go", "	hooks := r.getHooks(key)\n	for _, hook", "	for _, hook")] if False else [("raml.go", "	hooks := r.getHooks(key)\n	for _, hook := range hooks {\n", "	for i := 0; i < len(r.getHooks(key)); i++ {\n		hook := r.getHooks(key)[i]\n")],
 "a hook that removes itself while it runs, followed by another one", "the hook after it does not run",
 '''
	r := New(context.Background())
	n := 0
	var once HookFunc
	once = func(_ context.Context, r *RAML, _ ...any) error {
		r.RemoveHook(HookBeforeValidateShapes, once)
		return nil
	}
	r.AppendHook(HookBeforeValidateShapes, once)
	r.AppendHook(HookBeforeValidateShapes, func(context.Context, *RAML, ...any) error { n++; return nil })
	for i := 1; i < 3; i++ {
		if err := r.ValidateShapes(); err != nil {
			t.Fatal(err)
		}
		if n != i {
			t.Fatal("the second hook did not run")
		}
	}
''', "context")
bug("C16-facet-definition-error", "C16", [("unwrap.go", "	for pair := base.CustomShapeFacetDefinitions.Oldest(); pair != nil; pair = pair.Next() {\n		prop := pair.Value\n		rs, err := r.FindAndMarkRecursion(prop.Base)\n		if err != nil {\n			return fmt.Errorf(\"find and mark recursion: %w\", err)\n		}\n", "	for pair := base.CustomShapeFacetDefinitions.Oldest(); pair != nil; pair = pair.Next() {\n		prop := pair.Value\n		rs, err := r.FindAndMarkRecursion(prop.Base)\n		if err != nil {\n			// Facet definitions are not part of the type.\n			continue\n		}\n")],
 "a hook of the recursion step that fails for a custom facet definition", "the error of the hook is lost",
 '''
	r, err := ParseFromString("#%RAML 1.0 Library\\ntypes:\\n  A:\\n    type: string\\n    facets:\\n      f?: integer\\n", "lib.raml", t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	seen := false
	r.AppendHook(HookBeforeFindAndMarkRecursion, func(_ context.Context, _ *RAML, p ...any) error {
		if p[0].(*BaseShape).Type == TypeInteger {
			seen = true
			return errors.New("stop")
		}
		return nil
	})
	if err := r.UnwrapShapes(); err == nil || !seen {
		t.Fatal("the error is lost")
	}
''', "context errors")
bug("C17-text-list", "C17", [("node.go", "	if node.Value != \"\" && node.Value[0] == '{' {", "	if node.Value != \"\" && (node.Value[0] == '{' || node.Value[0] == '[' && json.Valid([]byte(node.Value))) {")],
 "a quoted example, default or annotation that begins with a bracket and is JSON", "the text becomes a list",
 '''
	r, err := ParseFromString("#%RAML 1.0 Library\\ntypes:\\n  A:\\n    type: any\\n    default: '[1, 2]'\\n", "lib.raml", t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	if v := zzGet(t, r, "A").Default.Value; v != "[1, 2]" {
		t.Fatal("not the text", v)
	}
''')
bug("C17-include-in-included", "C17", [("node.go", "		value, err = yamlNodeToDataNode(&data, fragmentPath, false)", "		value, err = yamlNodeToDataNode(&data, location, false)")],
 "an included YAML file in another directory that includes a file of its own directory", "the include is looked up beside the wrong file",
 '''
	d := t.TempDir()
	_ = os.Mkdir(filepath.Join(d, "sub"), 0o700)
	for n, c := range map[string]string{"sub/a.yaml": "x: !include b.txt\\n", "sub/b.txt": "inner", "b.txt": "outer"} {
		if err := os.WriteFile(filepath.Join(d, n), []byte(c), 0o600); err != nil {
			t.Fatal(err)
		}
	}
	r, err := ParseFromString("#%RAML 1.0 Library\\ntypes:\\n  A:\\n    type: any\\n    default: !include sub/a.yaml\\n", "lib.raml", d)
	if err != nil {
		t.Fatal(err)
	}
	if v := zzGet(t, r, "A").Default.Value.(map[string]any)["x"]; v != "inner" {
		t.Fatal(v)
	}
''')
bug("C17-big-integer", "C17", [("node.go", "		var val any\n		if err := node.Decode(&val); err != nil {\n			return nil, StacktraceNewWrapped(\"decode scalar node\", err, location)\n		}\n		return val, nil\n", "		var val any\n		if err := node.Decode(&val); err != nil {\n			return nil, StacktraceNewWrapped(\"decode scalar node\", err, location)\n		}\n		if u, ok := val.(uint64); ok {\n			return float64(u), nil\n		}\n		return val, nil\n")],
 "an integer above the largest int64 as a value", "the value is rounded to a double",
 '''
	r, err := ParseFromString("#%RAML 1.0 Library\\ntypes:\\n  A:\\n    type: any\\n    default: [18446744073709551615]\\n", "lib.raml", t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	if v := zzGet(t, r, "A").Default.Value.([]any)[0]; fmt.Sprint(v) != "18446744073709551615" {
		t.Fatal(v)
	}
''', "fmt")
bug("C17-value-alone", "C17", [("example.go", "		if node.Value == ExampleValue {\n", "		if node.Value == ExampleValue && valueNode.Tag != TagNull {\n")],
 "an explicit example whose value is null", "the example is the map that describes it",
 '''
	r, err := ParseFromString("#%RAML 1.0 Library\\ntypes:\\n  A:\\n    type: any\\n    example: {value: , description: d}\\n", "lib.raml", t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	if v := zzGet(t, r, "A").Example.Data.Value; v != nil {
		t.Fatal(v)
	}
''')
bug("C19-annotation-types-first", "C19", [("unwrap.go", "	st := r.unwrapTypes(f.AnnotationTypes, f, true)\n", "	st := r.unwrapTypes(f.AnnotationTypes, f, true)\n	if st != nil {\n		return st\n	}\n")],
 "a library with contradictory derivations both in an annotation type and in a type", "only the annotation type is reported",
 '''
	_, err := zzLib(t, "annotationTypes:\\n  a:\\n    type: P\\n    minLength: 1\\ntypes:\\n  P:\\n    minLength: 5\\n  C:\\n    type: P\\n    minLength: 2\\n")
	if err == nil {
		t.Fatal("accepted")
	}
	if s := err.Error(); !strings.Contains(s, "lib.raml:10") {
		t.Fatal("the type is not reported: " + s)
	}
''', "strings")
bug("C19-last-library", "C19", [("parse.go", "			se := StacktraceNewWrapped(\"parse uses library\", err, path,\n				stacktrace.WithType(StacktraceTypeParsing), stacktrace.WithPosition(&include.Position))\n			if st == nil {\n				st = se\n			} else {\n				st = st.Append(se)\n			}\n", "			st = StacktraceNewWrapped(\"parse uses library\", err, path,\n				stacktrace.WithType(StacktraceTypeParsing), stacktrace.WithPosition(&include.Position))\n")],
 "a library that uses two libraries that cannot be read", "only the last one is reported",
 '''
	_, err := zzLib(t, "uses:\\n  a: none1.raml\\n  b: none2.raml\\n")
	if err == nil {
		t.Fatal("accepted")
	}
	if s := err.Error(); !strings.Contains(s, "none1.raml") || !strings.Contains(s, "none2.raml") {
		t.Fatal("not reported: " + s)
	}
''', "strings")
bug("C19-default-place", "C19", [("validate.go", "			return StacktraceNewWrapped(\"validate default\", err, base.Default.Location,\n				stacktrace.WithPosition(&base.Default.Position))", "			return StacktraceNewWrapped(\"validate default\", err, base.Location,\n				stacktrace.WithPosition(&base.Default.Position))")],
 "a wrong default that is included from a file", "the error names a line of the included file as one of the file that includes it",
 '''
	_, err := zzLib(t, "types:\\n  A:\\n    type: integer\\n    default: !include d.yaml\\n", "d.yaml", "abc\\n")
	if err == nil {
		t.Fatal("accepted")
	}
	if s := err.Error(); !strings.Contains(s, "d.yaml") {
		t.Fatal(s)
	}
''', "strings")
bug("C20-optional-drops-facets", "C20", [("rdt_visitor.go", "	// Resolve target shape into union shape since this is the base.\n	shape, err := visitor.raml.MakeConcreteShapeYAML(target.Base(), TypeUnion, target.facets)\n	if err != nil {\n		return nil, fmt.Errorf(\"make concrete shape yaml: %w\", err)\n	}\n	//nolint:errcheck // No error check needed because MakeConcreteShapeYAML returns UnionShape for TypeUnion.\n	unionShape := shape.(*UnionShape)\n\n	// Create new", "	// Resolve target shape into union shape since this is the base.\n	shape, err := visitor.raml.MakeConcreteShapeYAML(target.Base(), TypeUnion, nil)\n	if err != nil {\n		return nil, fmt.Errorf(\"make concrete shape yaml: %w\", err)\n	}\n	//nolint:errcheck // No error check needed because MakeConcreteShapeYAML returns UnionShape for TypeUnion.\n	unionShape := shape.(*UnionShape)\n\n	// Create new")],
 "a custom facet beside an optional expression", "the facet is lost (and an unknown one goes unnoticed)",
 '''
	if _, err := zzLib(t, "types:\\n  A:\\n    type: string?\\n    foo: 1\\n"); err == nil {
		t.Fatal("an unknown facet is accepted")
	}
''')
bug("C20-lexer-silent", "C20", [("resolve.go", "	lexer.RemoveErrorListeners()\n	lexer.AddErrorListener(customListener)\n", "	lexer.RemoveErrorListeners()\n")],
 "a type expression with a character that belongs to no token", "the character is ignored and the expression is read without it",
 '''
	if _, err := zzLib(t, "types:\\n  A: 'string;'\\n"); err == nil {
		t.Fatal("accepted")
	}
''')
bug("C20-dotted-name", "C20", [("fragment.go", "			rr, ok = lib.Link.Types.Get(after)\n			if !ok {\n				return nil, fmt.Errorf(\"reference \\\"%s\\\" not found\", after)\n			}\n		}\n		ref = rr\n	}\n\n	return ref, nil\n}\n\n// GetReferenceAnnotationType returns a reference annotation type by name,\n// implementing the ReferenceAnnotationTypeGetter interface\nfunc (l *Library)", "			rr, ok = lib.Link.Types.Get(after)\n			if !ok {\n				rr, ok = l.Types.Get(after)\n			}\n			if !ok {\n				return nil, fmt.Errorf(\"reference \\\"%s\\\" not found\", after)\n			}\n		}\n		ref = rr\n	}\n\n	return ref, nil\n}\n\n// GetReferenceAnnotationType returns a reference annotation type by name,\n// implementing the ReferenceAnnotationTypeGetter interface\nfunc (l *Library)")],
 "a reference to a type that the library does not have while the using library has one of that name", "the reference denotes a type of the wrong library instead of being an error",
 '''
	if _, err := zzLib(t, "uses:\\n  l: l.raml\\ntypes:\\n  B: string\\n  A: l.B\\n", "l.raml", "#%RAML 1.0 Library\\ntypes:\\n  C: string\\n"); err == nil {
		t.Fatal("accepted")
	}
''')
bug("C22-include-cache", "C22", [("node.go", "	rdr, err := ReadRawFile(fragmentPath)\n	if err != nil {\n		return nil, StacktraceNewWrapped(\"include: read raw file\", err, location, WithNodePosition(node),\n			stacktrace.WithInfo(\"path\", fragmentPath))\n	}\n	defer func(rdr io.ReadCloser) {", "	if value, ok := includedValues[fragmentPath]; ok {\n		return &Node{Value: value, Location: fragmentPath, Position: stacktrace.Position{Line: 1, Column: 1}, raml: r}, nil\n	}\n	rdr, err := ReadRawFile(fragmentPath)\n	if err != nil {\n		return nil, StacktraceNewWrapped(\"include: read raw file\", err, location, WithNodePosition(node),\n			stacktrace.WithInfo(\"path\", fragmentPath))\n	}\n	defer func(rdr io.ReadCloser) {"),
  ("node.go", "	return &Node{\n		Value:    value,\n		Location: fragmentPath,", "	includedValues[fragmentPath] = value\n	return &Node{\n		Value:    value,\n		Location: fragmentPath,"), ("node.go", "type Nodes []*Node\n", "// includedValues holds the values of included files.\nvar includedValues = map[string]any{}\n\ntype Nodes []*Node\n")],
 "an included file that changes between two parses of a process", "the second parser sees the content of the first",
 '''
	d := t.TempDir()
	for _, v := range []string{"1", "2"} {
		if err := os.WriteFile(filepath.Join(d, "a.json"), []byte(v), 0o600); err != nil {
			t.Fatal(err)
		}
		r, err := ParseFromString("#%RAML 1.0 Library\\ntypes:\\n  A:\\n    type: integer\\n    default: !include a.json\\n", "lib.raml", d)
		if err != nil {
			t.Fatal(err)
		}
		if fmt.Sprint(zzGet(t, r, "A").Default.Value) != v {
			t.Fatal("stale")
		}
	}
''', "fmt")
bug("C22-facet-order", "C22", [("validate.go", "						stacktrace.WithPosition(&base.Position), stacktrace.WithInfo(\"facet\", k))\n				}\n				continue\n", "						stacktrace.WithPosition(&base.Position), stacktrace.WithInfo(\"facet\", k))\n				}\n				return nil\n")],
 "a type with two custom facet definitions inherited, one of them optional and absent, the other one given a wrong value", "whether the wrong value is reported depends on the iteration order of a map",
 '''
	for i := 0; i < 100; i++ {
		if _, err := zzLib(t, "types:\\n  P:\\n    facets:\\n      a?: integer\\n      b?: integer\\n  C:\\n    type: P\\n    b: x\\n"); err == nil {
			t.Fatal("accepted")
		}
	}
''')
