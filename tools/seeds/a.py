bug("C01-date-only-layout", "C01", [("scalars.go", "time.Parse(time.DateOnly, i)", 'time.Parse("2006-1-2", i)')],
 "a date-only value whose month or day has a single digit", "date-only accepts values that are not full-dates, such as 2024-1-5",
 '''
	r := zzMust(t, "types:\\n  D: date-only\\n")
	if zzGet(t, r, "D").Validate("2024-1-5") == nil {
		t.Fatal("2024-1-5 accepted")
	}
	if err := zzGet(t, r, "D").Validate("2024-01-05"); err != nil {
		t.Fatal(err)
	}
''')
bug("C02-unique-only-scalars", "C02", [("complex.go", "			uniqueItems[itemHash] = struct{}{}\n", "			if m, isMap := item.(map[string]interface{}); isMap && len(m) == 0 {\n				itemHash = uint64(ii)\n			}\n			uniqueItems[itemHash] = struct{}{}\n")],
 "an array with uniqueItems that holds several empty objects", "duplicate empty objects are not seen as duplicates",
 '''
	r := zzMust(t, "types:\\n  A:\\n    type: array\\n    items: object\\n    uniqueItems: true\\n")
	if zzGet(t, r, "A").Validate([]any{map[string]any{}, map[string]any{}}) == nil {
		t.Fatal("duplicates accepted")
	}
''')
bug("C02-missing-required-nil-value", "C02", [("complex.go", "		if _, ok := props[pair.Key]; !ok {\n			missing", "		if v, ok := props[pair.Key]; !ok && v == nil && len(props) < s.Properties.Len() {\n			missing")],
 "an object without a required property that has as many keys as there are declared properties, through undeclared keys", "a missing required property goes unnoticed when undeclared keys make up for it",
 '''
	r := zzMust(t, "types:\\n  A:\\n    properties:\\n      a: string\\n      b: string\\n")
	if zzGet(t, r, "A").Validate(map[string]any{"a": "x", "c": "y"}) == nil {
		t.Fatal("missing b accepted")
	}
''')
bug("C02-pattern-first-error", "C02", [("complex.go", "		if st == nil {\n			st = se\n		} else {\n			st = st.Append(se)\n		}\n	}\n	if st != nil {\n		return true, st\n	}\n	return false, nil\n", "		if st == nil {\n			st = se\n		} else {\n			return true, st.Append(se)\n		}\n	}\n	if st != nil {\n		return true, st\n	}\n	return false, nil\n")],
 "three pattern properties match a key and only the last accepts the value", "a value accepted by the third matching pattern property is rejected",
 '''
	r := zzMust(t, "types:\\n  A:\\n    properties:\\n      /^a/: string\\n      /^ab/: boolean\\n      /^abc/: integer\\n")
	if err := zzGet(t, r, "A").Validate(map[string]any{"abcd": 5}); err != nil {
		t.Fatal(err)
	}
''')
bug("C04-multiple-inherit-facets", "C04", [("shape.go", "if _, present := s.CustomShapeFacets.Get(k); !present {", "if _, present := s.CustomShapeFacets.Get(k); present {\n				break\n			} else {")],
 "a child that redeclares one user-defined facet value of a parent with several", "the parent's user-defined facet values declared after a redeclared one are lost",
 '''
	r := zzMust(t, "types:\\n  D:\\n    type: string\\n    facets:\\n      f?: integer\\n      g?: integer\\n  P:\\n    type: D\\n    f: 1\\n    g: 2\\n  C:\\n    type: P\\n    f: 3\\n")
	if _, ok := zzGet(t, r, "C").CustomShapeFacets.Get("g"); !ok {
		t.Fatal("g lost")
	}
''')
bug("C06-clone-pattern-properties", "C06", [("complex.go", "			k, prop := pair.Key, pair.Value\n			prop.Base = prop.Base.clone(clonedMap)\n			c.PatternProperties.Set(k, prop)\n", "			k, prop := pair.Key, pair.Value\n			if !prop.Base.IsScalar() {\n				prop.Base = prop.Base.clone(clonedMap)\n			}\n			c.PatternProperties.Set(k, prop)\n")],
 "a detached copy of an object with a scalar pattern property, whose pattern property shape is changed afterwards", "the copy shares scalar pattern property shapes with the original",
 '''
	r := zzMust(t, "types:\\n  A:\\n    properties:\\n      /^a/:\\n        type: string\\n        minLength: 2\\n")
	a := zzGet(t, r, "A")
	c := a.CloneDetached()
	p, _ := c.Shape.(*ObjectShape).PatternProperties.Get("/^a/")
	p.Base.Shape.(*StringShape).MinLength = nil
	if a.Validate(map[string]any{"ab": "x"}) == nil {
		t.Fatal("changing the copy changed the original")
	}
''')
bug("C07-alias-facet-defs", "C07", [("shape.go", "	s.CustomShapeFacetDefinitions = source.CustomShapeFacetDefinitions\n	s.CustomDomainProperties = source.CustomDomainProperties\n	return s, nil", "	if s.CustomShapeFacetDefinitions == nil || s.Location == source.Location {\n		s.CustomShapeFacetDefinitions = source.CustomShapeFacetDefinitions\n	}\n	s.CustomDomainProperties = source.CustomDomainProperties\n	return s, nil")],
 "an alias of a type of another file that defines custom facets", "the alias lacks the custom facet definitions of its target, so a type derived from it cannot use them",
 '''
	_, err := zzLib(t, "uses:\\n  l: l.raml\\ntypes:\\n  B: l.A\\n  C:\\n    type: B\\n    f: 5\\n", "l.raml", "#%RAML 1.0 Library\\ntypes:\\n  A:\\n    type: string\\n    facets:\\n      f?: integer\\n")
	if err != nil {
		t.Fatal(err)
	}
''')
