prop("C01", "Scalar validation is exact",
 "A value is accepted by an unwrapped scalar type (integer, number, string, boolean, nil, any, file and the date/time types) if and only if it is of that type's kind and satisfies every declared facet: minimum, maximum, minLength, maxLength (in characters), pattern and enum. "
 "All Go integer kinds a decoder can produce (int, int64, uint64, integral float64 for integer) are compared by numeric value (by an integer type without overflow, truncation or rounding; by a number type as IEEE doubles), and every bound is inclusive. date-only, time-only, datetime-only and datetime (rfc3339 by default) accept exactly existing dates and times written in full.",
 ["inputs", "configurations"],
 "for every combination of declared facets, every facet value and every instance value over the full 64-bit integer and IEEE double ranges, and every short or opaque string",
 "The tests sample a handful of values per facet; off-by-one, sign, overflow, rounding and kind-confusion errors only show at particular values of a 2^64-sized domain.",
 ["scalars.go", "shape.go"],
 [("per-type validate methods", "scalars.go"), ("integer/float normalisation", "scalars.go"), ("Validate entry point", "shape.go")])
prop("C02", "Validation of arrays, objects, unions and recursive types is exact",
 "A composite value is accepted if and only if every level of it satisfies the declared type: arrays respect minItems, maxItems (inclusive) and uniqueItems and every item satisfies the item type; objects have every required property, "
 "each declared property's value satisfies its type, undeclared keys must satisfy a matching pattern property (any matching one suffices) and are rejected when additionalProperties is false, and minProperties/maxProperties count all keys; "
 "a union accepts a value exactly when at least one member does, nil or `?` members included; recursive types are validated at every depth. The verdict never depends on the iteration order of the instance map.",
 ["inputs", "configurations", "schedules"],
 "for every combination of facets, symbolic counts over all of uint64, symbolic item/property values, every presence combination of keys and every map iteration order, within the stated sizes and nesting",
 "Tests check single examples of each facet; a skipped element, an off-by-one on a count, a constraint lost at depth two or an order-dependent verdict shows only for particular combinations of shape and value.",
 ["complex.go", "shape.go", "unwrap.go"],
 [("ArrayShape.validate, ObjectShape.validate, UnionShape.validate, RecursiveShape.validate", "complex.go"), ("recursion marking", "unwrap.go"), ("Validate entry point", "shape.go")])
prop("C03", "Inheritance only narrows and accumulates every constraint",
 "Deriving a type (type: Parent with extra facets, several levels, an alias in between, multiple inheritance, an overriding property, pattern property or array item, an included data type, or a union narrowed/overridden) succeeds exactly when the child's facets are not wider than the parent's "
 "(minimum, maximum, minLength, maxLength, minItems, maxItems, minProperties, maxProperties, enum subset, uniqueItems, required properties, fileTypes, same kind; a union member must be compatible with the overridden type), and is rejected otherwise, whatever the declaration order. "
 "The resulting type accepts exactly the values that satisfy both the parent's and the child's facets, through all levels.",
 ["inputs", "configurations"],
 "for every subset of facets present on parent and child, every facet value and every instance value, at every derivation site and declaration order in the bounds",
 "Whether a child widens its parent depends on the relation between two facet values at each of many sites; tests pick one pair per facet, so a reversed or missing comparison, or a facet dropped on one site, survives them.",
 ["complex.go", "scalars.go", "shape.go", "unwrap.go"],
 [("per-kind inherit methods", "scalars.go, complex.go"), ("BaseShape.Inherit and the union cases", "shape.go"), ("UnwrapShape, unwrapParents", "unwrap.go")])
prop("C04", "A derived type has every facet of its ancestors and all of its own",
 "After unwrapping, a derived type carries, for every facet its kind has (minimum, maximum, multipleOf, format, enum, minLength, maxLength, pattern, fileTypes, items, minItems, maxItems, uniqueItems, properties and pattern properties, minProperties, maxProperties, additionalProperties, discriminator, description and user-defined facet values), "
 "its own value if it declares one and otherwise the value of the nearest ancestor that declares it; nothing else appears. This holds at every derivation site (named type, through an alias, overridden property, pattern property or array item, included data type), through several levels and for several parents. "
 "The child's own displayName, default, example, annotations and required stay.",
 ["inputs", "configurations"],
 "for every subset of facets declared by parent and child, every derivation site, declaration order and symbolic facet values within the bounds",
 "A facet that is forgotten or overwritten in one of the per-kind inherit methods shows only for the particular kind, site and subset of facets; the tests use a few fixed documents.",
 ["scalars.go", "complex.go", "shape.go", "unwrap.go"],
 [("per-kind inherit methods", "scalars.go, complex.go"), ("BaseShape.Inherit (description, custom facets)", "shape.go"), ("unwrapParents, unwrapTarget", "unwrap.go")])
prop("C05", "Deriving from a type never alters any other type",
 "Unwrapping and validating a library leaves every declared type with exactly its own meaning: deriving children from a type, using it as one of several parents, overriding a property, pattern property or array item with it, aliasing it, making it a union member, or narrowing a union that contains it "
 "never adds, drops or tightens a constraint, property or metadata of that type, of its parent, or of its siblings, whatever the order of the declarations.",
 ["inputs", "histories", "configurations"],
 "for every declaration order of up to four interrelated types, with symbolic facet values and instances",
 "Interference comes from facets shared by pointer between shapes and shows only for particular declaration orders and combinations of derivations, which single-type tests never build.",
 ["shape.go", "complex.go", "unwrap.go"],
 [("in-place Inherit / AliasTo and copies", "shape.go"), ("ObjectShape/ArrayShape/UnionShape inherit", "complex.go"), ("UnwrapShape, unwrapParents", "unwrap.go")])

prop("C06", "Copies of a type are complete and independent",
 "CloneDetached returns a copy that is equal to the original in every facet, link and nested type, shares no shape with it, and stays unaffected by any change to the original (and the other way round), for every form of type, recursive ones included, before and after unwrapping. "
 "Clone with a common map clones each reachable shape once and keeps the relationships between shapes and their IDs; CloneShallow has its own top level. A copy unwraps to the same type, leaves the original untouched, and accepts the same values.",
 ["inputs", "histories", "configurations"],
 "for every listed form of type, every reachable shape and every changed field, before or after unwrapping, with symbolic facet values and instances",
 "Aliasing between a copy and its original shows only when a particular field of a particular nested shape is changed afterwards; tests copy a few flat types.",
 ["shape.go", "complex.go", "scalars.go", "unwrap.go"],
 [("Clone, CloneDetached, CloneShallow", "shape.go"), ("per-kind clone methods", "complex.go, scalars.go")])
prop("C07", "How a type is referred to or spelled does not change its meaning",
 "A type accepts the same values and has the same facets whether it is declared in place, referred to by name, aliased (also repeatedly), inherited without further facets, taken from a library (also through an alias in it or another library), included from a DataType file (also one that uses a library), put in parentheses, or given as a one-element parent list, "
 "and wherever it is used: as a type, property, pattern property, array item, or inside an inherited property or item; also regardless of declaration order. Shorthand forms (T[], T?, T | U, implied array/object/string/number kinds, `a?` keys) mean the same as the long forms. An alias keeps its target's description, displayName, annotations and custom facet definitions.",
 ["inputs", "configurations"],
 "for every combination of way, point of use, kind of type and declaration order within the bounds, with symbolic facet values and instances",
 "Each way of referring to a type takes a different path through resolution and unwrapping; the combinations are many and each can lose a facet on its own.",
 ["resolve.go", "unwrap.go", "shape.go", "fragment.go", "parse.go", "rdt_visitor.go"],
 [("resolveShape, resolveLink, alias resolution", "resolve.go"), ("AliasTo, Link handling", "shape.go"), ("UnwrapShape", "unwrap.go"), ("type expression visitor", "rdt_visitor.go")])
prop("C08", "Contradictory type declarations are rejected wherever they stand",
 "Validating a library fails exactly when some type in it contradicts itself, after inheritance: minimum above maximum, minLength above maxLength, minItems above maxItems, minProperties above maxProperties, an enum value or file type of another kind, a format of another kind, a discriminator that is not a declared scalar property or a discriminatorValue that does not suit it, or pattern properties on a closed object. "
 "This holds wherever the type is declared (type, annotation type, property, pattern property, item, at any depth, union member, included data type, used library, custom facet definition), with and without unwrapping first. Check on an unwrapped type tells the same.",
 ["inputs", "configurations"],
 "for every pair of facet values over the full 64-bit ranges, every listed place of declaration, and directly or split between parent and child",
 "Each facet check has its own comparison and each place of declaration its own path; tests combine few of them.",
 ["scalars.go", "complex.go", "validate.go", "shape.go"],
 [("per-kind check methods", "scalars.go, complex.go"), ("ValidateShapes and validateShapeCommons", "validate.go")])
prop("C09", "Examples, defaults, annotations and custom facets match their types",
 "Validating a library fails exactly when some value in it does not belong to the type it is given for: an example, any of the examples (also in an included NamedExample or value file), a default, the value of an annotation (judged by its annotation type, local, aliased or from a library), or the value of a custom facet "
 "(judged by every definition of it in the ancestors of the type: parent, grandparent, alias, each of several parents, included data type, library), or when a required custom facet is missing or an undefined one is given. "
 "Values are judged against the whole type, inherited facets included, wherever it is declared (type, annotation type, property, pattern property, item, nested, union member, data type file, used library, custom facet definition, recursive type), with and without unwrapping first. An example marked `strict: false` is not judged.",
 ["inputs", "configurations"],
 "for every value (symbolic leaves, deviating structure) and symbolic facets at every listed place of declaration and form",
 "The places where a value can stand are many and each is reached by its own traversal; tests put one bad value at a few of them.",
 ["validate.go", "shape.go", "example.go", "node.go", "extension.go", "unwrap.go"],
 [("validateExamples, validateShapeFacets, validateDomainExtensions", "validate.go"), ("decodeExamples, decodeFacets", "shape.go"), ("example decoding", "example.go")])
prop("C10", "No input makes the parser or a validator panic",
 "Parsing a document (library, data type, named example; from a string or a file), resolving, unwrapping and validating it either succeeds or returns an error, but never panics: whatever YAML node (scalar of any tag, sequence, map, alias, null, include of a missing file or of a file of another kind) stands in the place of any node of the document, whatever the keys, strings and type expressions are, "
 "and whether or not unwrapping and validation are requested. Validating any Go value against an unwrapped type returns a verdict and never panics.",
 ["inputs", "configurations", "faults"],
 "for every node kind at every place of the documents, symbolic keys and strings, every sequence of type expression tokens and every listed Go value against every kind of type, within the bounds",
 "Each decoder makes assumptions about the kind of node it gets; the combinations of place and kind are many and tests hold mostly well-formed documents.",
 ["fragment.go", "parse.go", "shape.go", "scalars.go", "complex.go", "example.go", "node.go", "extension.go", "resolve.go", "rdt_visitor.go", "unwrap.go", "validate.go"],
 [("fragment decoders", "fragment.go"), ("parse and decode functions", "parse.go"), ("shape decoding", "shape.go, scalars.go, complex.go"), ("type expression visitor", "rdt_visitor.go")])
prop("C13", "Self-reference is either rejected or fully supported",
 "A type that is defined by itself alone (a cycle of aliases, parents, included data types or union memberships, of any length and over any number of files) is rejected with an error, and parsing always ends. "
 "Any other self-reference (through properties, pattern properties, items or custom facet definitions, libraries that use each other, data types that include each other or themselves, or use the library that includes them) is accepted: the type parses, unwraps and validates, "
 "a traversal that stops at RecursiveShape ends, every type of every file is unwrapped, and values, examples and defaults are judged at every depth against the whole type, including the facets it inherits, in every declaration order.",
 ["inputs", "configurations"],
 "for every graph of up to three types with up to 17 forms of reference, in one file or spread over files, and recursive types with symbolic inherited facets and instances of up to four levels",
 "Whether a reference reaches a type that is still being resolved or unwrapped depends on the order of declarations and files; tests hold a handful of recursive documents and small values.",
 ["resolve.go", "unwrap.go", "parse.go", "rdt_visitor.go", "complex.go", "raml.go"],
 [("resolveShape", "resolve.go"), ("UnwrapShape, FindAndMarkRecursion", "unwrap.go"), ("RecursiveShape", "complex.go"), ("fragment cache", "parse.go, raml.go")])
prop("C14", "A type and its JSON schema accept the same values",
 "Converting any unwrapped type to a JSON schema succeeds, and the schema (draft 7 semantics) accepts exactly the values that the type accepts (of the date and time types at least those), for every kind of type and facet, in both flavours (plain and with the RAML wrapper), recursive types included: every reference resolves within the schema, however properties and types are named, and leads to the type it stands for. "
 "Titles, descriptions, defaults, examples, annotations and custom facets (with the RAML wrapper) are carried over. A type that is written as a JSON schema converts to that schema, with its references resolving. "
 "Conversion changes no type and can be repeated; the structure, its Map, its JSON (written and read again) and its deep and shallow copies tell the same, and a deep copy shares nothing.",
 ["inputs", "configurations"],
 "for every kind of type with symbolic facets at ten places, 31 composite types, 27 shapes of recursion and every instance with symbolic leaves that deviates at one node",
 "Equivalence of a type and its schema is a statement about all instances; tests compare the text of a few schemas.",
 ["jsonschemaconv.go", "schema.go", "complex.go"],
 [("JSONSchemaConverter", "jsonschemaconv.go"), ("JSONSchemaGeneric, Map, DeepCopy", "schema.go")])
prop("C12", "A reference denotes the type of that name in its own file",
 "An unqualified type name in a library denotes the type of that name declared in the same library; `alias.name` denotes the type `name` declared by the library that the file's own `uses` maps alias to: only that library's own declarations, not those of libraries it uses, and never an alias of another file; a declared name that contains a dot takes precedence. "
 "In a DataType file only qualified references have a meaning. Annotations refer to annotationTypes in the same way, a separate namespace. Names are case sensitive, may look like built-in or internal names, and a reference without a target is an error. "
 "Paths of uses and !include are relative to the file they stand in, however the parser is started; a file is read once and its types are shared, whatever the path or alias; a missing file, or one of another kind, is an error even if nothing refers to it.",
 ["inputs", "configurations", "faults"],
 "for every reference of a set of names at every listed place and file, every mapping of aliases and set of declarations in the bounds, with symbolic facets that tell the targets apart",
 "Mistakes in scoping (a transitive lookup, the wrong file's aliases, a cache keyed by an unnormalised path, a prefix match) need several files with colliding names; the tests use libraries with disjoint names.",
 ["raml.go", "resolve.go", "parse.go", "fragment.go", "unwrap.go"],
 [("GetReferencedType and GetReferencedAnnotationType", "raml.go, fragment.go"), ("fragment cache and path resolution", "parse.go, raml.go"), ("resolveShape, VisitReference", "resolve.go, rdt_visitor.go")])
prop("C11", "A declaration is read as it is written, in any order",
 "The facets of a type declaration, and the sections of a file, mean the same in every order, at every place where a type can be declared. A declaration without a type (or an empty one) is of the one kind that has all of its facets (string before file; string if there are none) and is an error if there is none. "
 "A property key ending in `?` is optional and loses the mark, unless `required` is given, which then decides and the key keeps the mark; a key between slashes is a pattern property, which can be neither required nor optional; anything else is a plain name; custom facet definitions likewise. "
 "Facet values are read exactly (every YAML spelling of a number), and a value of another kind (a negative or fractional count, a text as number or boolean, a scalar where a list or map is needed, an invalid regular expression or format) is an error. "
 "Properties, pattern properties, custom facets, examples, enums, file types, parents, types and annotations stay in document order.",
 ["inputs", "configurations"],
 "for every order that moves one facet anywhere, every set of up to three facets without a type in any order, every listed key and value at the listed places, with symbolic numbers",
 "The decoder walks the keys in document order and some steps depend on others that may come later; the tests write their documents in one customary order with well-formed values.",
 ["shape.go", "scalars.go", "complex.go", "fragment.go"],
 [("BaseShape.decode, makeNewShapeYAML, identifyShapeType", "shape.go"), ("per-kind unmarshalYAMLNodes", "scalars.go, complex.go"), ("makeProperty, makePatternProperty, chompImplicitOptional", "complex.go"), ("Library and DataType UnmarshalYAML", "fragment.go")])
prop("C16", "Hooks run in order, once each, and can stop the step",
 "The hooks registered for a step run in order (appended ones last, prepended ones first) each time the step is performed, and before it, with the parser and the item of the step; the first hook that returns an error stops the step, which returns that error, and no later hook runs; an error of any hook of any step fails the parse, whichever call it is, and never panics (members of a union are skipped instead while a union is narrowed). "
 "Hooks of other keys, nil hooks, removed and cleared hooks do not run; removing takes away one registration of that hook. Registering through a shape is the same as through its parser. A hook may change the registration while it runs, which affects later calls only, and the hooks of a parser that a hook creates from its context stay apart from those of the parser that runs it. "
 "Hooks that return no error change nothing in the result, and every type and shape of the document is seen by the hooks of the steps that process it.",
 ["histories", "inputs", "faults"],
 "for every sequence of up to four (thorough: six) operations with three hooks, every pair of operations performed within a running hook, and an error at every call of every step of a parse",
 "The outcome depends on the history of registrations and on which call fails; tests register one hook and call one function.",
 ["raml.go", "shape.go", "validate.go", "unwrap.go", "rdt_visitor.go", "parse.go"],
 [("AppendHook, PrependHook, RemoveHook, ClearHooks, callHooks", "raml.go"), ("BaseShape hook methods", "shape.go"), ("hook keys of the steps", "shape.go, unwrap.go, validate.go, parse.go")])
prop("C19", "Errors lead to the faults, and the model knows its places",
 "An error of a parse or of the steps after it (resolving, unwrapping, validating) carries traces of places. Every place exists: its file is one of those read and the line is a line of it. Every trace passes through a declaration that is faulty or through one that refers to it, and the trace to a fault ends at it: the file and line of the faulty declaration (a key or value of it, or the declaration it belongs to) are in the trace, wherever the declaration stands and however the file that holds it is reached (used, included, directly). "
 "Decoding stops at the first fault of a file, but reports each of the used libraries that cannot be read; each later step, over all types, annotations, libraries and data types, reports all of the faults it finds: none hides another, and a declaration that is sound is not reported. A file that is missing or of the wrong kind is reported at the place that refers to it. "
 "In the model every library, data type and named example knows its file, and every type, property, item, facet declaration, custom facet, default, example, enum value, annotation and used library the file, line and column where it is written, before and after unwrapping and validation, inherited ones keeping theirs.",
 ["inputs", "configurations"],
 "for every listed fault at every listed place, every subset of up to six faults (each decided by a symbolic value) over three files, and every combination of entry point, offset and step for the model",
 "That an error is reported at all is all that most tests look at; a fault that hides another one, an error that names the file that includes instead of the included one, or a place lost when unwrapping shows only for certain combinations of faults and files.",
 ["fragment.go", "parse.go", "resolve.go", "unwrap.go", "validate.go", "node.go", "shape.go", "error.go"],
 [("ParseFromPath, parseFragment, decodeFragment", "parse.go"), ("resolveShapes, resolveDomainExtensions", "resolve.go"), ("UnwrapShapes", "unwrap.go"), ("ValidateShapes", "validate.go"), ("makeIncludedNode, Node positions", "node.go"), ("BaseShape position and location", "shape.go, fragment.go")])
prop("C18", "However a parse is started and staged, the outcome is the same",
 "A file is what its first line says: exactly `#%RAML 1.0 Library`, `DataType` or `NamedExample`, with nothing but blanks or a carriage return after it; any other first line is an error, and so is a kind that does not belong where the file is used or included. "
 "Starting from a path (absolute, relative or not normalised) or from text with a base directory, with or without a context, through the package or a parser, gives the same verdict and model. So do the options of a parse and the same steps called later: unwrapping and validating in either order and repeatedly. "
 "Validation without unwrapping has the verdict it has with it and changes nothing in the model, which can still be unwrapped. "
 "A parser that has parsed documents successfully can parse another one, or the same one again, even if they share files, with the outcome that a new parser has.",
 ["inputs", "configurations", "histories"],
 "for every listed document, start, sequence of steps and history of the parser, with symbolic facets and instances; every string of up to 24 characters as a first line, and every first line with one character changed at the listed places in each role of a file",
 "The tests start a parse in one way per document and run the steps in one order; a step that depends on another one, a cache that is keyed by another spelling of the path or state that a former parse left behind shows only in combinations.",
 ["parse.go", "unwrap.go", "validate.go", "raml.go"],
 [("ReadHead, IdentifyFragment, CheckFragmentKind", "parse.go"), ("ParseFromPath, ParseFromString, parseFragment", "parse.go"), ("UnwrapShapes", "unwrap.go"), ("ValidateShapes (unwrapping on demand)", "validate.go"), ("fragment caches", "raml.go")])
prop("C20", "A type expression means what it says",
 "A type expression is either well formed and denotes exactly the type it describes, or an error. Names are the built-in types and the declared ones (with a library alias before a dot), and may contain or resemble built-in names; parentheses group; `X[]` is an array of X, `X?` a union of X and nil, `X | Y | Z` a union with the members in this order (a group that is a union is one member), and the postfix operators bind tighter than `|`. "
 "Spaces and tabs between the parts mean nothing; unbalanced or empty groups, missing operands, adjacent names, other characters and names that are not declared are errors. "
 "An expression means the same wherever it stands: as a type or the `type` of one (alone or in a list), property, pattern property, items, facet or annotation type, in another library or in a DataType file; facets beside it belong to the whole expression.",
 ["inputs", "configurations"],
 "for every sequence of up to four tokens, every tree of operators of depth two, every inserted or replaced character and every place in the bounds, with symbolic facets and instances",
 "A dropped member, a swapped operand, an error that is not reported or facets that end up on a part of the expression show only for particular nestings; the tests use a few expressions.",
 ["resolve.go", "rdt_visitor.go", "parse.go", "rdt/rdt_parser.go"],
 [("resolveShape (parsing), CustomErrorListener", "resolve.go"), ("RdtVisitor", "rdt_visitor.go"), ("grammar", "rdt/rdtParser.g4")])
prop("C21", "What a parser lists and looks up is what its documents hold",
 "After every step (parsing, unwrapping, validating, in any number) the look-ups of a parser agree with its documents. A file is found by its path, and knows it; a library's types and annotation types are found by the path and their name, no others are, and it is the same type that its library holds and that references from other files (with the alias of the library) lead to; names that are not declared lead to nothing. "
 "The list of shapes holds every shape of the documents (declared types, their parents, properties, items, members, facet declarations, heads of recursions) exactly once and nothing else, in particular no copy made on the way, and different shapes have different identifiers. "
 "The list of annotations holds every annotation written in the documents exactly once, defined by the annotation type, as it is now, that the name denotes in the file of the annotation.",
 ["inputs", "configurations", "histories"],
 "for every listed document, mode and sequence of up to two (thorough: three) more steps, every declared name and every reference in the documents, with a symbolic facet",
 "The look-ups are maps and lists kept beside the documents and rebuilt by several steps; an entry that is stale after one particular sequence of steps is not noticed where a test looks at the documents themselves.",
 ["raml.go", "unwrap.go", "fragment.go", "validate.go", "parse.go"],
 [("GetShapes, GetFragment, GetTypeFromFragmentPtr, GetAllAnnotations, GetReferencedType", "raml.go"), ("GetReferenceType, GetReferenceAnnotationType", "fragment.go"), ("UnwrapShapes, unwrapTypes, unwrapDomainExtensions", "unwrap.go"), ("resolveDomainExtensions", "resolve.go"), ("MakeBaseShape (identifiers)", "shape.go")])
prop("C22", "The result depends on the documents alone",
 "Parsing, unwrapping, validating and converting the same documents has the same outcome every time: whether they are accepted, what every type accepts, every facet, annotation and custom facet of a type and its JSON schema depend neither on the order in which Go iterates over maps (of files, of definitions) nor on what other parsers have done, before or between the steps, with the same or other documents.",
 ["schedules", "configurations", "histories"],
 "for every iteration order of every map of the code, for 14 documents of up to four files that refer to each other and four types with several definitions, and every interleaving of the steps of two parsers, with symbolic facets and instances",
 "Go randomises the iteration order, so a dependence on it shows as a rare failure in a test at best; state shared between parsers shows only if two of them are at work.",
 ["unwrap.go", "validate.go", "raml.go", "jsonschemaconv.go", "schema.go"],
 [("unwrapFragments, markShapeRecursions", "unwrap.go"), ("ValidateShapes", "validate.go"), ("fragment caches", "raml.go"), ("recast, define", "jsonschemaconv.go")])
prop("C17", "A value in the model is the value written",
 "Every value written in a document (an example, an examples member, the `value` of an explicit example, a default, an annotation, a custom facet, an enum member, a discriminator value, a member of a named example file) is in the parsed model, before and after unwrapping and validation, as exactly the value written: maps, sequences, null, booleans, exact integers, doubles and text; dates and times stay text; quoted or tagged scalars are what the quotes or the tag say. "
 "A map is the explicit form of an example exactly if it has the key `value`. Text at the top of a value that begins with a brace is its JSON value. "
 "`!include` stands for the content of the file, relative to the file where the include is written: JSON by `.json`, YAML by `.yaml` and `.yml`, any other its text (below the top of a value JSON may stay text, and includes in included files may be refused). "
 "A value that cannot be read (missing file, malformed or trailing text in JSON or YAML, aliases, keys that are collections, a scalar that does not fit its tag, a file that includes itself) is an error.",
 ["inputs", "configurations"],
 "for every value nested to two levels out of the listed scalars with symbolic integers, text and booleans, at each of 14 places, as YAML, JSON or included",
 "Values go through three readers (YAML, JSON, raw text) chosen by tag, first character and file extension at a dozen places; tests sample a few values at one or two places.",
 ["node.go", "example.go", "extension.go", "shape.go", "scalars.go", "complex.go", "fragment.go"],
 [("yamlNodeToDataNode, scalarNodeToDataNode, makeRootNode, makeIncludedNode", "node.go"), ("makeExample, Example.fill", "example.go"), ("unmarshalCustomDomainExtension", "extension.go"), ("decodeValueNode, decodeExamples", "shape.go"), ("ObjectShape discriminatorValue", "complex.go"), ("NamedExample UnmarshalYAML", "fragment.go")])
