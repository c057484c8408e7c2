bug("C03-min-properties-zero", "C03", [("complex.go", "} else if source.MinProperties != nil && *s.MinProperties < *source.MinProperties {", "} else if source.MinProperties != nil && *s.MinProperties != 0 && *s.MinProperties < *source.MinProperties {")],
 "a child that sets minProperties: 0 under a parent with a positive minProperties", "the child accepts objects with fewer properties than its parent demands",
 '''
	r, err := zzLib(t, "types:\\n  P:\\n    type: object\\n    minProperties: 2\\n  C:\\n    type: P\\n    minProperties: 0\\n")
	if err == nil && zzGet(t, r, "C").Validate(map[string]any{}) == nil {
		t.Fatal("the child accepts what the parent rejects")
	}
''')
bug("C03-union-first-incompatible", "C03", [("shape.go", "				// Skip shapes that didn't pass inheritance check\n				continue\n", "				// Skip shapes that didn't pass inheritance check\n				break\n")],
 "a property that narrows the union of the parent type's property, whose first member of the same kind is incompatible while a later one is compatible", "a valid declaration is rejected: later compatible members are not considered",
 '''
	r, err := zzLib(t, "types:\\n  A:\\n    type: string\\n    maxLength: 2\\n  B:\\n    type: string\\n    maxLength: 8\\n  P:\\n    properties:\\n      p: A | B\\n  C:\\n    type: P\\n    properties:\\n      p:\\n        type: string\\n        maxLength: 5\\n")
	if err != nil {
		t.Fatal(err)
	}
	if zzGet(t, r, "C").Validate(map[string]any{"p": "abcde"}) != nil {
		t.Fatal("rejected")
	}
''')
bug("C09-default-beside-example", "C09", [("validate.go", "	if base.Default != nil {\n		if err := base.Validate(base.Default.Value)", "	if base.Default != nil && base.Example == nil {\n		if err := base.Validate(base.Default.Value)")],
 "a type with both an example and an invalid default", "an invalid default goes unnoticed beside an example",
 '''
	if _, err := zzLib(t, "types:\\n  A:\\n    type: integer\\n    example: 1\\n    default: x\\n"); err == nil {
		t.Fatal("invalid default accepted")
	}
	if _, err := zzLib(t, "types:\\n  A:\\n    type: integer\\n    example: 1\\n    default: 2\\n"); err != nil {
		t.Fatal(err)
	}
''')
bug("C09-included-examples", "C09", [("validate.go", "			if err := base.Validate(ex.Data.Value); err != nil {", "			if base.Examples.Link != nil && pair.Prev() != nil {\n				break\n			}\n			if err := base.Validate(ex.Data.Value); err != nil {")],
 "named examples in a file of their own of which the second or a later one is invalid", "an invalid example is accepted",
 '''
	f := "#%RAML 1.0 NamedExample\\na: 1\\nb: "
	lib := "types:\\n  A:\\n    type: integer\\n    examples: !include e.raml\\n"
	if _, err := zzLib(t, lib, "e.raml", f+"x\\n"); err == nil {
		t.Fatal("invalid example accepted")
	}
	if _, err := zzLib(t, lib, "e.raml", f+"2\\n"); err != nil {
		t.Fatal(err)
	}
''')
bug("C09-facet-of-second-parent", "C09", [("validate.go", "		parents = append(parents, parent.Inherits...)\n", "		if len(parents) == 0 {\n			parents = append(parents, parent.Inherits...)\n		}\n")],
 "a type with two parents, the first of which inherits a required facet definition from its own parent", "a facet value that breaks a grandparent's facet definition is reported as unknown or accepted",
 '''
	lib := "types:\\n  G:\\n    type: object\\n    facets:\\n      f?: integer\\n  P:\\n    type: G\\n  Q:\\n    type: object\\n  C:\\n    type: [P, Q]\\n    f: "
	if _, err := zzLib(t, lib+"5\\n"); err != nil {
		t.Fatal(err)
	}
	if _, err := zzLib(t, lib+"x\\n"); err == nil {
		t.Fatal("bad facet value accepted")
	}
''')
bug("C10-slash-property", "C10", [("complex.go", "	if len(propertyName) > 1 && propertyName[0] == '/'", "	if len(propertyName) > 0 && propertyName[0] == '/'")],
 "a property named by a single slash", "parsing panics",
 '''
	defer func() {
		if recover() != nil {
			t.Fatal("panic")
		}
	}()
	zzLib(t, "types:\\n  A:\\n    properties:\\n      /: string\\n")
''')
bug("C11-file-types-first", "C11", [("shape.go", "			case TypeFile:\n				if ft == TypeString && !stringOnly {", "			case TypeFile:\n				if ft == TypeString && !stringOnly && (i < 4 || node.Value != FacetMaxLength) {")],
 "a type without type: that declares fileTypes, another facet and then maxLength", "a file type is not recognised by its facets in one order",
 '''
	r := zzMust(t, "types:\\n  A:\\n    fileTypes: ['image/png']\\n    minLength: 1\\n    maxLength: 5\\n")
	if _, ok := zzGet(t, r, "A").Shape.(*FileShape); !ok {
		t.Fatal("not a file")
	}
''')
bug("C11-optional-name-explicit", "C11", [("complex.go", "		if hasImplicitOptional {\n			finalName = nodeName\n		}\n", "		if hasImplicitOptional && *shapeRequired {\n			finalName = nodeName\n		}\n")],
 "a property whose name ends with a question mark and that says required: false", "the property is declared under the wrong name",
 '''
	r := zzMust(t, "types:\\n  A:\\n    properties:\\n      \\"a?\\":\\n        type: string\\n        required: false\\n")
	if _, ok := zzGet(t, r, "A").Shape.(*ObjectShape).Properties.Get("a?"); !ok {
		t.Fatal("no property a?")
	}
''')
bug("C12-annotation-library-first", "C12", [("fragment.go", "		rr, isType := l.AnnotationTypes.Get(refName)\n		if !isType {", "		rr, isType := l.AnnotationTypes.Get(refName)\n		if _, isLib := l.Uses.Get(before); !isType || isLib {")],
 "a library with an annotation type whose name has a dot and a uses entry named like the part before it", "the annotation is defined by the annotation type of the other library, or not found",
 '''
	if _, err := zzLib(t, "uses:\\n  a: l.raml\\nannotationTypes:\\n  a.b: integer\\ntypes:\\n  T:\\n    type: string\\n    (a.b): 1\\n", "l.raml", "#%RAML 1.0 Library\\ntypes:\\n  X: integer\\nannotationTypes:\\n  b: string\\n"); err != nil {
		t.Fatal(err)
	}
''')
bug("C12-datatype-transitive", "C12", [("fragment.go", "	ref, ok = lib.Link.Types.Get(after)\n	if !ok {", "	ref, ok = lib.Link.Types.Get(after)\n	if !ok && lib.Link.Uses != nil {\n		if nested, has := lib.Link.Uses.Get(before); has {\n			ref, ok = nested.Link.Types.Get(after)\n		}\n	}\n	if !ok {")],
 "a DataType fragment and the library it uses both use a library under the same name", "a type of a library that is not in scope is found",
 '''
	l := "#%RAML 1.0 Library\\n"
	if _, err := zzLib(t, "types:\\n  T:\\n    type: !include d.raml\\n", "d.raml", "#%RAML 1.0 DataType\\nuses:\\n  a: l.raml\\ntype: a.X\\n", "l.raml", l+"uses:\\n  a: m.raml\\ntypes:\\n  Y: string\\n", "m.raml", l+"types:\\n  X: string\\n"); err == nil {
		t.Fatal("found")
	}
''')
bug("C14-closed-without-properties", "C14", [("jsonschemaconv.go", "	schema.AdditionalProperties = s.AdditionalProperties\n", "	if s.Properties != nil || s.MaxProperties != nil {\n		schema.AdditionalProperties = s.AdditionalProperties\n	}\n")],
 "an object type with additionalProperties: false and no properties", "the schema accepts objects that the type rejects",
 '''
	r := zzMust(t, "types:\\n  A:\\n    type: object\\n    additionalProperties: false\\n")
	c, err := NewJSONSchemaConverter(WithWrapper(JSONSchemaWrapper))
	if err != nil {
		t.Fatal(err)
	}
	s, err := c.Convert(zzGet(t, r, "A").Shape)
	if err != nil {
		t.Fatal(err)
	}
	m := s.Map()
	if d, ok := m["definitions"].(map[string]any); ok {
		m = d["A"].(map[string]any)
	}
	if v, ok := m["additionalProperties"]; !ok || v != false {
		t.Fatal("additionalProperties lost", m)
	}
''')
bug("C14-deepcopy-oneof", "C14", [("schema.go", "		newJs.OneOf = make([]T, len(js.OneOf))\n		for i, v := range js.OneOf {\n			newJs.OneOf[i] = v.DeepCopy()\n		}\n	}\n\n	newJs.Not = js.Not.DeepCopy()", "		newJs.OneOf = make([]T, len(js.OneOf))\n		for i, v := range js.OneOf {\n			newJs.OneOf[i] = v\n		}\n	}\n\n	newJs.Not = js.Not.DeepCopy()")],
 "a deep copy of a schema with oneOf whose members are changed afterwards", "the copy shares its oneOf members with the original",
 '''
	s := &JSONSchema{}
	m := &JSONSchema{}
	m.Type = "string"
	s.OneOf = []*JSONSchema{m}
	c := s.DeepCopy()
	c.OneOf[0].Type = "number"
	if m.Type != "string" {
		t.Fatal("shared")
	}
''')
bug("C05-clone-shallow-facets", "C05", [("shape.go", "	c.CustomShapeFacets = orderedmap.New[string, *Node](s.CustomShapeFacets.Len())\n	for pair := s.CustomShapeFacets.Oldest(); pair != nil; pair = pair.Next() {\n		c.CustomShapeFacets.Set(pair.Key, pair.Value)\n	}\n\n	c.CustomShapeFacetDefinitions = orderedmap.New[string, Property](s.CustomShapeFacetDefinitions.Len())\n	for pair := s.CustomShapeFacetDefinitions.Oldest(); pair != nil; pair = pair.Next() {\n		prop := pair.Value\n		c.CustomShapeFacetDefinitions.Set(pair.Key, prop)\n	}\n\n	c.Shape = s.Shape.cloneShallow(ptr)", "	if s.CustomShapeFacets.Len() == 0 {\n		c.CustomShapeFacets = orderedmap.New[string, *Node]()\n	}\n\n	c.CustomShapeFacetDefinitions = orderedmap.New[string, Property](s.CustomShapeFacetDefinitions.Len())\n	for pair := s.CustomShapeFacetDefinitions.Oldest(); pair != nil; pair = pair.Next() {\n		prop := pair.Value\n		c.CustomShapeFacetDefinitions.Set(pair.Key, prop)\n	}\n\n	c.Shape = s.Shape.cloneShallow(ptr)")],
 "a type with custom facet values used as one of several parents", "unwrapping a type with several parents writes the other parents' facet values into the first parent",
 '''
	r := zzMust(t, "types:\\n  F:\\n    type: object\\n    facets:\\n      f?: integer\\n      g?: integer\\n  A:\\n    type: F\\n    f: 1\\n  B:\\n    type: F\\n    g: 2\\n  C:\\n    type: [A, B]\\n")
	if _, ok := zzGet(t, r, "A").CustomShapeFacets.Get("g"); ok {
		t.Fatal("A has B's facet")
	}
''')
bug("C13-pattern-beside-properties", "C13", [("unwrap.go", "	if t.PatternProperties != nil {\n		for pair := t.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {\n			prop := pair.Value\n			rs, err := r.FindAndMarkRecursion(prop.Base)", "	if t.PatternProperties != nil && t.Properties.Len() < 2 {\n		for pair := t.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {\n			prop := pair.Value\n			rs, err := r.FindAndMarkRecursion(prop.Base)")],
 "an object with two or more properties and a pattern property of its own type", "the recursion through the pattern property is not marked, so consumers walk the type for ever",
 """
	r := zzMust(t, "types:\\n  A:\\n    properties:\\n      a: string\\n      b: string\\n      /x/: A\\n")
	p, _ := zzGet(t, r, "A").Shape.(*ObjectShape).PatternProperties.Get("/x/")
	if _, ok := p.Base.Shape.(*RecursiveShape); !ok {
		t.Fatal("not marked")
	}
""")
bug("C08-discriminator-with-patterns", "C08", [("complex.go", "	if s.Discriminator != nil && s.Properties == nil {", "	if s.Discriminator != nil && s.Properties == nil && s.PatternProperties == nil {")],
 "an object with a discriminator and pattern properties but no properties", "a discriminator that names no property is accepted",
 """
	if _, err := zzLib(t, "types:\\n  A:\\n    discriminator: d\\n    properties:\\n      /a/: string\\n"); err == nil {
		t.Fatal("accepted")
	}
""")
bug("C06-clone-second-parent", "C06", [("shape.go", "			c.Inherits[i] = v.clone(clonedMap)\n", "			if i > 0 && v.IsScalar() {\n				c.Inherits[i] = v\n				continue\n			}\n			c.Inherits[i] = v.clone(clonedMap)\n")],
 "a detached copy of a scalar type with several parents", "the copy shares its second parent with the original",
 """
	r := zzMust(t, "types:\\n  A: string\\n  B: string\\n  C:\\n    type: [A, B]\\n")
	b := zzGet(t, r, "C")
	c := b.CloneDetached()
	if len(c.Inherits) != len(b.Inherits) || len(c.Inherits) != 2 {
		t.Fatal("parents")
	}
	for i := range c.Inherits {
		if c.Inherits[i] == b.Inherits[i] {
			t.Fatal("shared parent", i)
		}
	}
""")
bug("C01-uint-overflow", "C01", [("scalars.go", "	case uint64:\n		val.SetUint64(v)\n", "	case uint64:\n		val.SetInt64(int64(v))\n")],
 "an integer value of 2^63 or more given as uint64", "huge positive integers are compared as negative numbers",
 """
	r := zzMust(t, "types:\\n  A:\\n    type: integer\\n    minimum: 0\\n")
	if err := zzGet(t, r, "A").Validate(uint64(1) << 63); err != nil {
		t.Fatal(err)
	}
""")
bug("C02-union-last-error", "C02", [("complex.go", "		err = item.Shape.validate(v, ctxPath)\n		if err == nil {\n			return nil\n		}\n		st = st.Append(", "		err = item.Shape.validate(v, ctxPath)\n		if err == nil {\n			return nil\n		}\n		if _, isNil := item.Shape.(*NilShape); isNil && v != nil && item == s.AnyOf[0] && len(s.AnyOf) == 2 && s.AnyOf[1].Type == TypeArray {\n			break\n		}\n		st = st.Append(")],
 "a union of nil and an array, nil first, and an array value", "a value of the second member is rejected",
 """
	r := zzMust(t, "types:\\n  A:\\n    type: nil | string[]\\n")
	if err := zzGet(t, r, "A").Validate([]any{"x"}); err != nil {
		t.Fatal(err)
	}
""")
