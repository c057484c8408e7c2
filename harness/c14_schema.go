package raml

//use: common.go gen.go c02_generic.go
//bound: scalar types of all kinds with symbolic facets at ten places (named, alias, child, property, pattern property, item, union member, library, data type); the 31 composite types of C02 with symbolic facets; 26 shapes of recursion, with equal, missing and unusual names; every value with the structure of a member and symbolic leaves that deviates at one node, by another kind of value, a missing, additional or oddly named key, fewer, equal or foreign items; 16 patterns of properties with slashes at three places; both flavours of schema, as a structure and as a map
//assume: patterns of properties do not match declared keys and do not overlap; multipleOf and format are not enforced by types; an enum has a value

import (
	"encoding/json"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

var _ = vReg("VH_C14_scalars", VH_C14_scalars)
var _ = vReg("VH_C14_composite", VH_C14_composite)
var _ = vReg("VH_C14_composite_T", VH_C14_composite_T)

func c14Nil[T any](x T) bool {
	switch p := any(x).(type) {
	case *JSONSchemaRAML:
		return p == nil
	case *JSONSchema:
		return p == nil
	}
	return true
}

// c14Map renders a schema the way JSON Schema writes it.
func c14Map[T jsonSchemaWrapper[T]](node T) map[string]any {
	js := node.Generic()
	m := map[string]any{}
	str := func(k, v string) {
		if v != "" {
			m[k] = v
		}
	}
	num := func(k string, v json.Number) {
		if v != "" {
			m[k] = v
		}
	}
	cnt := func(k string, v *uint64) {
		if v != nil {
			m[k] = json.Number(strconv.FormatUint(*v, 10))
		}
	}
	one := func(k string, v T) {
		if !c14Nil(v) {
			m[k] = c14Map(v)
		}
	}
	list := func(k string, v []T) {
		if len(v) == 0 {
			return
		}
		var l []any
		for _, e := range v {
			if c14Nil(e) {
				l = append(l, map[string]any(nil))
			} else {
				l = append(l, c14Map(e))
			}
		}
		m[k] = l
	}
	flag := func(k string, v *bool) {
		if v != nil {
			m[k] = *v
		}
	}
	str("$schema", js.Version)
	str("$id", js.ID)
	str("$ref", js.Ref)
	str("$comment", js.Comment)
	str("type", js.Type)
	str("pattern", js.Pattern)
	str("contentEncoding", js.ContentEncoding)
	str("contentMediaType", js.ContentMediaType)
	str("format", js.Format)
	str("title", js.Title)
	str("description", js.Description)
	num("multipleOf", js.MultipleOf)
	num("minimum", js.Minimum)
	num("maximum", js.Maximum)
	cnt("minLength", js.MinLength)
	cnt("maxLength", js.MaxLength)
	cnt("minItems", js.MinItems)
	cnt("maxItems", js.MaxItems)
	cnt("minContains", js.MinContains)
	cnt("maxContains", js.MaxContains)
	cnt("minProperties", js.MinProperties)
	cnt("maxProperties", js.MaxProperties)
	flag("uniqueItems", js.UniqueItems)
	flag("additionalProperties", js.AdditionalProperties)
	if len(js.Enum) > 0 {
		m["enum"] = js.Enum
	}
	if len(js.Examples) > 0 {
		m["examples"] = js.Examples
	}
	if js.Const != nil {
		m["const"] = js.Const
	}
	if js.Default != nil {
		m["default"] = js.Default
	}
	if len(js.Required) > 0 {
		var l []any
		for _, r := range js.Required {
			l = append(l, r)
		}
		m["required"] = l
	}
	if len(js.Definitions) > 0 {
		d := map[string]any{}
		for k, v := range js.Definitions {
			if !c14Nil(v) {
				d[k] = c14Map(v)
			}
		}
		m["definitions"] = d
	}
	list("allOf", js.AllOf)
	list("anyOf", js.AnyOf)
	list("oneOf", js.OneOf)
	one("not", js.Not)
	one("if", js.If)
	one("then", js.Then)
	one("else", js.Else)
	one("items", js.Items)
	one("propertyNames", js.PropertyNames)
	if js.Properties.Len() > 0 {
		d := map[string]any{}
		for p := js.Properties.Oldest(); p != nil; p = p.Next() {
			d[p.Key] = c14Map(p.Value)
		}
		m["properties"] = d
	}
	if js.PatternProperties.Len() > 0 {
		d := map[string]any{}
		for p := js.PatternProperties.Oldest(); p != nil; p = p.Next() {
			d[p.Key] = c14Map(p.Value)
		}
		m["patternProperties"] = d
	}
	if r, ok := any(node).(*JSONSchemaRAML); ok {
		if r.Annotations.Len() > 0 {
			d := map[string]any{}
			for p := r.Annotations.Oldest(); p != nil; p = p.Next() {
				d[p.Key] = p.Value
			}
			m["x-annotations"] = d
		}
		if r.FacetData.Len() > 0 {
			d := map[string]any{}
			for p := r.FacetData.Oldest(); p != nil; p = p.Next() {
				d[p.Key] = p.Value
			}
			m["x-facet-data"] = d
		}
		if r.FacetDefinitions.Len() > 0 {
			d := map[string]any{}
			for p := r.FacetDefinitions.Oldest(); p != nil; p = p.Next() {
				d[p.Key] = c14Map(p.Value)
			}
			m["x-facet-definitions"] = d
		}
	}
	return m
}

// c14Same is equality of rendered schemas as a formula.
func c14Same(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && vIff(x, y)
	case int:
		y, ok := b.(int)
		return ok && x == y
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case json.Number:
		y, ok := b.(json.Number)
		return ok && x == y
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = vAnd(r, c14Same(x[i], y[i]))
		}
		return r
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for k, e := range x {
			f, has := y[k]
			if !has {
				return false
			}
			r = vAnd(r, c14Same(e, f))
		}
		return r
	}
	return false
}

// c14Convert converts a type to a schema of one of the flavours and renders it.
func c14Convert(b *BaseShape, plain bool) map[string]any {
	if plain {
		c, err := NewJSONSchemaConverter[*JSONSchema]()
		vAssert(err == nil, "the plain converter needs no wrapper")
		s, err := c.Convert(b.Shape)
		vAssert(err == nil, "an unwrapped type has a schema")
		return c14Render(s)
	}
	c, err := NewJSONSchemaConverter(WithWrapper(JSONSchemaWrapper))
	vAssert(err == nil, "the converter is constructed")
	s, err := c.Convert(b.Shape)
	vAssert(err == nil, "an unwrapped type has a schema")
	return c14Render(s)
}

func c14Render[T jsonSchemaWrapper[T]](s T) map[string]any {
	m := c14Map(s)
	vAssert(c14Same(m, s.Map()), "the map of a schema carries every keyword of its structure and nothing else")
	return m
}

// c14Resolve finds the schema a reference points to.
func c14Resolve(root map[string]any, ref string) map[string]any {
	if !strings.HasPrefix(ref, "#") {
		return nil
	}
	p, err := url.PathUnescape(ref[1:])
	if err != nil {
		return nil
	}
	var at any = root
	for i, tok := range strings.Split(p, "/") {
		if i == 0 {
			if tok != "" {
				return nil
			}
			continue
		}
		tok = strings.ReplaceAll(strings.ReplaceAll(tok, "~1", "/"), "~0", "~")
		m, ok := at.(map[string]any)
		if !ok {
			return nil
		}
		if at, ok = m[tok]; !ok {
			return nil
		}
	}
	m, ok := at.(map[string]any)
	if !ok {
		return nil
	}
	return m
}

// c14OK is the meaning of a JSON schema: a formula that says whether a value satisfies it.
func c14OK(root, s map[string]any, v any, fuel int) bool {
	if ref, ok := s["$ref"]; ok {
		t := c14Resolve(root, ref.(string))
		vAssert(t != nil, "every reference of a schema resolves")
		vAssert(fuel > 0, "every reference of a schema resolves")
		return c14OK(root, t, v, fuel-1)
	}
	r := true
	for k, kw := range s {
		r = vAnd(r, c14Keyword(root, s, k, kw, v, fuel))
	}
	return r
}

func c14Keyword(root, s map[string]any, k string, kw, v any, fuel int) bool {
	str, isStr := v.(string)
	list, isList := v.([]any)
	obj, isObj := v.(map[string]any)
	switch k {
	case "type":
		switch kw.(string) {
		case "null":
			return v == nil
		case "boolean":
			_, ok := v.(bool)
			return ok
		case "string":
			return isStr
		case "integer":
			_, ok := v.(int64)
			return ok
		case "number":
			switch v.(type) {
			case int64, float64:
				return true
			}
			return false
		case "array":
			return isList
		case "object":
			return isObj
		}
		vAssert(false, "the type of a schema is one of JSON Schema's")
	case "enum":
		r := false
		for _, e := range kw.([]any) {
			r = vOr(r, c14Eq(e, v))
		}
		return r
	case "minimum", "maximum":
		return c14Compare(k == "minimum", kw.(json.Number), s["type"] == "integer", v)
	case "minLength":
		return vOr(!isStr, uint64(utf8.RuneCountInString(str)) >= c14Count(kw))
	case "maxLength":
		return vOr(!isStr, uint64(utf8.RuneCountInString(str)) <= c14Count(kw))
	case "minItems":
		return vOr(!isList, uint64(len(list)) >= c14Count(kw))
	case "maxItems":
		return vOr(!isList, uint64(len(list)) <= c14Count(kw))
	case "minProperties":
		return vOr(!isObj, uint64(len(obj)) >= c14Count(kw))
	case "maxProperties":
		return vOr(!isObj, uint64(len(obj)) <= c14Count(kw))
	case "pattern":
		return !isStr || regexp.MustCompile(kw.(string)).MatchString(str)
	case "uniqueItems":
		r := true
		for i := range list {
			for j := 0; j < i; j++ {
				r = vAnd(r, !gEq(list[i], list[j]))
			}
		}
		return vOr(!kw.(bool), r)
	case "items":
		r := true
		for _, e := range list {
			r = vAnd(r, c14OK(root, kw.(map[string]any), e, 9))
		}
		return r
	case "required":
		for _, n := range kw.([]any) {
			if _, has := obj[n.(string)]; isObj && !has {
				return false
			}
		}
		return true
	case "properties":
		r := true
		for n, p := range kw.(map[string]any) {
			if e, has := obj[n]; has {
				r = vAnd(r, c14OK(root, p.(map[string]any), e, 9))
			}
		}
		return r
	case "patternProperties":
		r := true
		for n, p := range kw.(map[string]any) {
			re := regexp.MustCompile(n)
			for key, e := range obj {
				if re.MatchString(key) {
					r = vAnd(r, c14OK(root, p.(map[string]any), e, 9))
				}
			}
		}
		return r
	case "additionalProperties":
		ps, _ := s["properties"].(map[string]any)
		qs, _ := s["patternProperties"].(map[string]any)
		for key := range obj {
			_, declared := ps[key]
			for n := range qs {
				declared = declared || regexp.MustCompile(n).MatchString(key)
			}
			if !declared && !kw.(bool) {
				return false
			}
		}
		return true
	case "anyOf":
		r := false
		for _, m := range kw.([]any) {
			r = vOr(r, c14OK(root, m.(map[string]any), v, fuel))
		}
		return r
	case "allOf":
		r := true
		for _, m := range kw.([]any) {
			r = vAnd(r, c14OK(root, m.(map[string]any), v, fuel))
		}
		return r
	case "not":
		return !c14OK(root, kw.(map[string]any), v, fuel)
	case "const":
		return c14Eq(kw, v)
	case "oneOf", "if", "then", "else", "propertyNames", "minContains", "maxContains":
		vAssert(false, "keyword "+k)
	}
	return true
}

func c14Count(kw any) uint64 {
	n, err := strconv.ParseUint(string(kw.(json.Number)), 10, 64)
	vAssert(err == nil, "a count of a schema is a number")
	return n
}

func c14Compare(min bool, text json.Number, whole bool, v any) bool {
	if x, ok := v.(int64); ok {
		if whole {
			b, err := strconv.ParseInt(string(text), 10, 64)
			vAssert(err == nil, "a bound of a schema is a number")
			if min {
				return x >= b
			}
			return x <= b
		}
		v = float64(x)
	}
	x, ok := v.(float64)
	if !ok {
		return true
	}
	b, err := strconv.ParseFloat(string(text), 64)
	vAssert(err == nil, "a bound of a schema is a number")
	if min {
		return x >= b
	}
	return x <= b
}

// c14Exact tells whether an integer and a float are the same number.
func c14Exact(i int64, f float64) bool {
	return vAnd(float64(i) == f, vAnd(f < 9223372036854775808.0, int64(f) == i))
}

func c14Eq(e, v any) bool {
	switch x := e.(type) {
	case int:
		if f, ok := v.(float64); ok {
			return c14Exact(int64(x), f)
		}
		y, ok := v.(int64)
		return ok && int64(x) == y
	case float64:
		if i, ok := v.(int64); ok {
			return c14Exact(i, x)
		}
		y, ok := v.(float64)
		return ok && x == y
	case bool:
		y, ok := v.(bool)
		return ok && vIff(x, y)
	case string:
		y, ok := v.(string)
		return ok && x == y
	case nil:
		return v == nil
	}
	vAssert(false, "an enum of a schema lists scalars")
	return false
}

// c14Judge compares a type with its schema.
func c14Judge(b *BaseShape, v any, plain bool) {
	want := vOK(b, v)
	m := c14Convert(b, plain)
	vAssert(c14OK(m, m, v, 9) == want, "a schema accepts exactly the values that the type accepts")
}

func c14Scalar(kind int) []string {
	switch kind {
	case 0:
		return []string{"type: integer"}
	case 1:
		return []string{"type: integer", "minimum: " + vPlace(ndInt("min"))}
	case 2:
		return []string{"type: integer", "maximum: " + vPlace(ndInt("max"))}
	case 3:
		lo := ndInt("lo")
		return []string{"type: integer", "enum: [" + vPlace(lo) + ", 5]"}
	case 4:
		return []string{"type: number", "minimum: " + vPlace(c14Float("min"))}
	case 5:
		return []string{"type: number", "maximum: " + vPlace(c14Float("max"))}
	case 6:
		return []string{"type: number", "enum: [0.5, " + vPlace(c14Float("e")) + ", 3]"}
	case 7:
		return []string{"type: string", "minLength: " + vPlace(ndUint("min"))}
	case 8:
		return []string{"type: string", "maxLength: " + vPlace(ndUint("max"))}
	case 9:
		return []string{"type: string", []string{"pattern: ^a+b?$", "pattern: '[0-9]{2}'", "enum: [a, \"\", b c]"}[ndChoice(3, "string")]}
	case 10:
		return []string{[]string{"type: boolean", "type: nil", "type: any", "type: string", "type: number", "type: object", "type: array"}[ndChoice(7, "plain")]}
	case 11:
		return []string{"type: boolean", "enum: [" + vPlace(ndBool("e")) + "]"}
	}
	return []string{"type: string | nil"}
}

func c14Float(n string) float64 {
	f := ndFloat(n)
	vAssume(f-f == 0)
	return f
}

func c14Value(fractions bool) any {
	switch ndChoice(8, "value") {
	case 0:
		return nil
	case 1:
		return ndBool("v")
	case 2:
		return ndInt("v")
	case 3:
		if !fractions {
			return 2.5
		}
		f := c14Float("v")
		vAssume(vAnd(f > -1e15, f < 1e15, f != float64(int64(f))))
		return f
	case 4:
		return ndAtom(9)
	case 5:
		return []any{}
	case 6:
		return map[string]any{}
	}
	return []string{"ab", "12", "", "b c", "x12y", "b"}[ndChoice(6, "text")]
}

// VH_C14_scalars: scalar types at every place.
func VH_C14_scalars() {
	kind := ndChoice(13, "type")
	place := ndChoice(10, "place")
	vAssume(vThorough || kind < 4 || kind > 6 || place == 0 || place == 4)
	d := c14Scalar(kind)
	v := c14Value(kind >= 4 && kind <= 6)
	at := func(n int) string {
		s := ""
		for _, l := range d {
			s += strings.Repeat(" ", n) + l + "\n"
		}
		return s
	}
	doc := "types:\n"
	switch place {
	case 0:
		doc += "  T:\n" + at(4)
	case 1:
		doc += "  T: S\n  S:\n" + at(4)
	case 2:
		doc += "  S:\n" + at(4) + "  T:\n    type: S\n    description: d\n"
	case 3:
		doc += "  T:\n    properties:\n      a:\n" + at(8)
		v = map[string]any{"a": v}
	case 4:
		doc += "  T:\n    properties:\n      /^a/:\n" + at(8)
		v = map[string]any{"ab": v, "c": nil}
	case 5:
		doc += "  T:\n    type: array\n    items:\n" + at(6)
		v = []any{v}
	case 6:
		doc += "  T: S | U\n  U: boolean[]\n  S:\n" + at(4)
	case 7:
		vFile("l.raml", "#%RAML 1.0 Library\ntypes:\n  S:\n"+at(4))
		doc = "uses: {l: l.raml}\ntypes:\n  T: \"l.S[]\"\n"
		v = []any{v, v}
	case 8:
		vFile("d.raml", "#%RAML 1.0 DataType\n"+at(0))
		doc += "  T: !include d.raml\n"
	case 9:
		doc += "  T:\n    properties:\n      a?:\n" + at(8)
		v = map[string]any{"a": v}
	}
	r, err := ParseFromString("#%RAML 1.0 Library\n"+doc, "lib.raml", vDir(), OptWithUnwrap())
	vAssert(err == nil, "the type is well formed")
	if err != nil {
		return
	}
	c14Judge(vGet(r, "T"), v, ndBool("plain schema"))
}

func c14Composite(devs, long int) {
	pick := ndChoice(len(c02Types), "type")
	t := c02Types[pick]()
	vAssume(!c14Overlap(t, map[*gT]bool{}))
	b, err := vUnwrapped(gDoc(t), "T")
	vAssert(err == nil, "the type is well formed")
	g := &gGen{depth: 4, long: long}
	if t.k == "ref" {
		g.depth = 3
	}
	for i := 0; i < devs; i++ {
		g.dev = append(g.dev, ndChoice(18, "where")-1)
	}
	for i := 1; i < devs; i++ {
		vAssume(g.dev[i] > g.dev[i-1])
	}
	v := g.val(t)
	for _, d := range g.dev {
		vAssume(d < g.n)
	}
	c14Judge(b, v, !vThorough && pick%2 == 1 || vThorough && ndBool("plain schema"))
}

// c14Overlap tells whether a key can be subject to two declarations of a type.
func c14Overlap(t *gT, seen map[*gT]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if len(t.pats) > 1 {
		for _, p := range t.pats {
			for _, q := range t.pats {
				if p.n != q.n && strings.HasPrefix(p.n, q.n[:len(q.n)-1]) || strings.HasSuffix(p.n, "$/") {
					return true
				}
			}
		}
	}
	for _, p := range t.pats {
		for _, q := range t.props {
			if p.match(q.n) {
				return true
			}
		}
		if c14Overlap(p.t, seen) {
			return true
		}
	}
	for _, p := range t.props {
		if c14Overlap(p.t, seen) {
			return true
		}
	}
	for _, m := range t.of {
		if c14Overlap(m, seen) {
			return true
		}
	}
	return c14Overlap(t.items, seen) || c14Overlap(t.def, seen)
}

// VH_C14_composite: composite types.
func VH_C14_composite()   { c14Composite(1, 2) }
func VH_C14_composite_T() { c14Composite(2, 3) }

// Shapes of recursion with equal, missing and unusual names; T is converted.
var c14Recursive = []string{
	"  T: {properties: {\"n?\": T, v: integer}}\n",
	"  T: {properties: {\"T?\": T, v: integer}}\n",
	"  T: {properties: {\"n?\": T, \"T?\": {properties: {\"n?\": T}}}}\n",
	"  T: {properties: {\"a?\": {type: A}, v: integer}}\n  A: {properties: {\"n?\": A, s: string}}\n",
	"  T: {properties: {\"a?\": A, \"b?\": B}}\n  A: {properties: {\"n?\": A, v: integer}}\n  B: {properties: {\"n?\": B, s: string}}\n",
	"  T: {properties: {\"n?\": A, \"T?\": {properties: {\"n?\": B}}}}\n  A: {properties: {\"n?\": A, v: integer}}\n  B: {properties: {\"n?\": B, s: string}}\n",
	"  T: {properties: {\"x?\": {properties: {\"n?\": A}}, \"y?\": {properties: {\"n?\": B}}}}\n  A: {properties: {\"n?\": {type: A, description: d}, v: integer}}\n  B: {properties: {\"n?\": {type: B, description: d}, s: string}}\n",
	"  T: {properties: {\"x?\": {properties: {\"n?\": {type: A}}}, \"y?\": {properties: {\"n?\": {type: B}}}}}\n  A: {properties: {\"n?\": A, v: integer}}\n  B: {properties: {\"n?\": B, s: string}}\n",
	"  T: {type: array, items: T}\n",
	"  T: {properties: {\"n?\": {type: array, items: {properties: {\"n?\": T, v: integer}}}}}\n",
	"  T: {properties: {\"n?\": \"A[]\"}}\n  A: {properties: {\"n?\": \"T | A | nil\", v: integer}}\n",
	"  T: \"A | B\"\n  A: {properties: {\"n?\": T, v: integer}}\n  B: {properties: {\"n?\": A, s: string}}\n",
	"  T: A\n  A: {properties: {\"n?\": T, v: integer}}\n",
	"  T: {type: A}\n  A: {properties: {\"n?\": T, v: integer}}\n",
	"  T: {type: A, properties: {\"n?\": T}}\n  A: {properties: {\"n?\": A, v: integer}}\n",
	"  T: {properties: {\"/^n/\": T, v: integer}}\n",
	"  T: {properties: {\"/^n/\": {type: T, description: d}, \"/^s/\": string}}\n",
	"  T: {properties: {\"a/b?\": A}}\n  A: {properties: {\"a/b?\": A, v: integer}}\n",
	"  T: {properties: {\"a~1b?\": {type: A}}}\n  A: {properties: {\"a~1b?\": {type: A}, v: integer}}\n",
	"  T: {properties: {\"a%2Fb?\": {type: A}, \"#/d ^?\": T}}\n  A: {properties: {\"a%2Fb?\": {type: A}, v: integer}}\n",
	"  T: {properties: {\"n?\": {type: \"A | nil\"}, \"?\": {type: B}}}\n  A: {properties: {\"?\": A, v: integer}}\n  B: {properties: {\"n?\": \"B | string\"}}\n",
	"  T: {properties: {\"n?\": {type: array, items: {type: array, items: T}}}}\n",
	"  T: {type: array, items: {properties: {\"n?\": T, v: integer}}}\n",
	"  T: {properties: {\"n?\": T_2, \"v?\": A}}\n  T_2: {properties: {\"n?\": T_2, v: integer}}\n  A: {properties: {\"T?\": A, \"n?\": T}}\n",
	"  T: {type: [A, B]}\n  A: {properties: {\"n?\": T}}\n  B: {properties: {v: integer}}\n",
	"  T: {properties: {\"n?\": {type: A, properties: {\"n?\": B}}}}\n  A: {properties: {\"n?\": A, v: integer}}\n  B: {type: A, properties: {s: string}}\n",
	"  T: {facets: {\"f?\": \"T[]\"}, type: object, properties: {\"n?\": T, v: integer}}\n",
}

var _ = vReg("VH_C14_recursive", VH_C14_recursive)

// c14Chain nests objects and lists by the keys a type knows; one level deviates.
func c14Chain(keys []string, depth int) any {
	bad, how := ndChoice(depth+2, "where")-1, ndChoice(6, "how")
	vAssume(bad >= 0 || how == 0)
	var v any
	for i := 0; i <= depth; i++ {
		m := map[string]any{"v": ndInt("v"), "s": "x"}
		if i > 0 {
			k := keys[ndChoice(len(keys), "key")]
			if k == "[]" {
				v = []any{v}
				if i == bad {
					v = []any{v.([]any)[0], c14Bad(how)}
				}
				continue
			}
			m[k] = v
		}
		v = m
		if i == bad {
			switch how {
			case 0:
				delete(m, "v")
			case 1:
				m["v"] = "x"
			default:
				v = c14Bad(how)
			}
		}
	}
	return v
}

func c14Bad(how int) any {
	return []any{"", "", nil, ndInt("bad"), []any{}, map[string]any{"s": int64(1), "v": int64(1)}}[how]
}

// VH_C14_recursive: recursive types refer to definitions that say the same.
func VH_C14_recursive() {
	lo := ndInt("lo")
	text := c14Recursive[ndChoice(len(c14Recursive), "recursion")]
	doc := "types:\n  V: {type: integer, minimum: " + vPlace(lo) + "}\n" + strings.ReplaceAll(text, "v: integer", "v: V")
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "the type is well formed")
	keys := []string{}
	for _, k := range []string{"n", "T", "a", "b", "x", "y", "a/b", "a~1b", "a%2Fb", "#/d ^", ""} {
		if strings.Contains(text, "\""+k+"?\"") || strings.Contains(text, "/^"+k+"/") {
			keys = append(keys, k)
		}
	}
	if strings.Contains(text, "array") || strings.Contains(text, "[]") {
		keys = append(keys, "[]")
	}
	c14Judge(b, c14Chain(keys, 3), false)
}

var _ = vReg("VH_C14_names", VH_C14_names)

var c14Names = []string{"a/b", "a~1b", "a%2Fb", "#", "a b", "^x$", "é", "a.b", "0", "a?b&c=d", "definitions/T"}

// VH_C14_names: a type of any name has a schema whose references resolve.
func VH_C14_names() {
	name := c14Names[ndChoice(len(c14Names), "name")]
	lo := ndInt("lo")
	body := "{type: integer, minimum: " + vPlace(lo) + "}\n"
	if ndBool("nested") {
		body = "{properties: {\"" + name + "?\": {type: integer, minimum: " + vPlace(lo) + "}}}\n"
	}
	b, err := vUnwrapped("types:\n  \""+name+"\": "+body, name)
	x := ndInt("x")
	vAssert(err == nil && b != nil, "the type is well formed")
	var v any = x
	if ndBool("object") {
		v = map[string]any{name: v}
	}
	c14Judge(b, v, ndBool("plain schema"))
}

var _ = vReg("VH_C14_meta", VH_C14_meta)
var _ = vReg("VH_C14_facets", VH_C14_facets)
var _ = vReg("VH_C14_repeat", VH_C14_repeat)
var _ = vReg("VH_C14_dates", VH_C14_dates)

// c14At walks to the schema of a part.
func c14At(m map[string]any, path ...string) map[string]any {
	m = c14Resolve(m, m["$ref"].(string))
	var at any = m
	for _, p := range path {
		if l, ok := at.([]any); ok {
			i, _ := strconv.Atoi(p)
			at = l[i]
			continue
		}
		d, _ := at.(map[string]any)
		at = d[p]
	}
	d, _ := at.(map[string]any)
	return d
}

// VH_C14_meta: what documents a type documents its schema.
func VH_C14_meta() {
	kind := []string{"integer", "number", "any", "integer | nil"}[ndChoice(4, "kind")]
	d := []string{"type: " + kind, "facets: {\"f?\": integer, g: {type: string, minLength: 1}}"}
	x, y := ndInt("x"), ndInt("y")
	child := []string{"type: B", "g: text"}
	want := map[string]any{"x-facet-data": map[string]any{"g": "text"}}
	on := ndChoice(9, "metadata")
	switch on {
	case 0:
		child = append(child, "displayName: Name")
		want["title"] = "Name"
	case 1:
		child = append(child, "description: Some text")
		want["description"] = "Some text"
	case 2:
		child = append(child, "default: "+vPlace(x))
		want["default"] = int(x)
	case 3:
		child = append(child, "example: "+vPlace(x))
		want["examples"] = []any{int(x)}
	case 4:
		child = append(child, "examples: {p: "+vPlace(x)+", q: {value: "+vPlace(y)+"}}")
		want["examples"] = []any{int(x), int(y)}
	case 5:
		child = append(child, "(n): "+vPlace(x), "(m): {k: ["+vPlace(y)+", null]}")
		want["x-annotations"] = map[string]any{"n": int(x), "m": map[string]any{"k": []any{int(y), nil}}}
	case 6:
		child = append(child, "f: "+vPlace(x))
		want["x-facet-data"] = map[string]any{"g": "text", "f": int(x)}
	case 7:
		child = append(child, "displayName: N", "description: D", "default: "+vPlace(y), "example: "+vPlace(x), "(n): 1")
		want["title"], want["description"], want["default"], want["examples"] = "N", "D", int(y), []any{int(x)}
		want["x-annotations"] = map[string]any{"n": 1}
	case 8:
		child = append(child, "default: null")
	}
	at := func(n int, l []string) string {
		s := ""
		for _, e := range l {
			s += strings.Repeat(" ", n) + e + "\n"
		}
		return s
	}
	doc := "annotationTypes: {n: integer, m: any}\ntypes:\n  B:\n" + at(4, d) + "  T:\n"
	var path []string
	switch ndChoice(7, "place") {
	case 0:
		doc += at(4, child)
	case 1:
		doc += "    properties:\n      a:\n" + at(8, child)
		path = []string{"properties", "a"}
	case 2:
		doc += "    properties:\n      /^a/:\n" + at(8, child)
		path = []string{"patternProperties", "^a"}
	case 3:
		doc += "    type: array\n    items:\n" + at(6, child)
		path = []string{"items"}
	case 4:
		doc += "    type: string | C\n  C:\n" + at(4, child)
		path = []string{"anyOf", "1"}
	case 5:
		doc += "    properties:\n      a?:\n        type: array\n        items:\n          properties:\n            b?:\n" + at(14, child)
		path = []string{"properties", "a", "items", "properties", "b"}
	case 6:
		doc += "    type: C\n  C:\n" + at(4, child)
		vAssume(on == 6)
	}
	r, err := vLib(doc, OptWithUnwrap())
	vAssert(err == nil, "the type is well formed")
	if err != nil {
		return
	}
	b := vGet(r, "T")
	plain := ndBool("plain schema")
	m := c14At(c14Convert(b, plain), path...)
	vAssert(m != nil, "every part of a type has a schema")
	if plain {
		delete(want, "x-annotations")
		delete(want, "x-facet-data")
	}
	for _, k := range []string{"title", "description", "default", "examples", "x-annotations", "x-facet-data"} {
		w, has := want[k]
		g, got := m[k]
		vAssert(has == got, "a schema carries the metadata of its type and no other")
		if has {
			vAssert(c14Same(w, g), "a schema carries the metadata of its type")
		}
	}
	root := c14At(c14Convert(vGet(r, "B"), false))
	defs, _ := root["x-facet-definitions"].(map[string]any)
	f, _ := defs["f"].(map[string]any)
	g, _ := defs["g"].(map[string]any)
	vAssert(len(defs) == 2 && f["type"] == "integer" && g["type"] == "string" && g["minLength"] == json.Number("1"), "a schema carries the facet definitions of its type")
}

// VH_C14_facets: facets that types do not enforce reach the schema.
func VH_C14_facets() {
	n, f := ndUint("n"), c14Float("f")
	var decl string
	want := map[string]any{}
	num := func(x uint64) json.Number { return json.Number(strconv.FormatUint(x, 10)) }
	switch ndChoice(11, "type") {
	case 0:
		decl = "{type: number, multipleOf: " + vPlace(f) + "}"
		want["multipleOf"] = json.Number(strconv.FormatFloat(f, 'f', -1, 64))
		want["type"] = "number"
	case 1:
		decl = "{type: integer, multipleOf: " + vPlace(f) + "}"
		want["multipleOf"] = json.Number(strconv.FormatFloat(f, 'f', -1, 64))
		want["type"] = "integer"
	case 2:
		decl = "{type: file, minLength: " + vPlace(n) + ", fileTypes: [a/b]}"
		want["minLength"], want["type"], want["contentEncoding"], want["contentMediaType"] = num(n), "string", "base64", "a/b"
	case 3:
		decl = "{type: file, maxLength: " + vPlace(n) + ", fileTypes: []}"
		want["maxLength"], want["type"], want["contentEncoding"] = num(n), "string", "base64"
	case 4:
		decl = "datetime"
		want["type"], want["format"] = "string", "date-time"
	case 5:
		decl = "{type: datetime, format: rfc3339}"
		want["type"], want["format"] = "string", "date-time"
	case 6:
		decl = "date-only"
		want["type"], want["format"] = "string", "date"
	case 7:
		decl = "time-only"
		want["type"], want["format"] = "string", "time"
	case 8:
		decl = "nil"
		want["type"] = "null"
	case 9:
		decl = "any"
	case 10:
		decl = "file"
		want["type"], want["contentEncoding"] = "string", "base64"
	}
	b, err := vUnwrapped("types:\n  T: "+decl+"\n", "T")
	vAssume(err == nil)
	m := c14At(c14Convert(b, ndBool("plain schema")))
	vAssert(len(m) == len(want), "a schema carries the facets of its type and no others")
	for k, v := range want {
		g, has := m[k]
		vAssert(has, "a schema carries the facets of its type and no others")
		vAssert(c14Same(v, g), "a schema carries the facets of its type with their values")
	}
}

// VH_C14_repeat: conversion can be repeated and changes nothing; copies are equal and separate.
func VH_C14_repeat() {
	i := ndChoice(len(c14Recursive)+8, "type")
	doc := "types:\n"
	if i < len(c14Recursive) {
		doc += c14Recursive[i]
	} else {
		doc += []string{
			"  T: {properties: {a: {type: string, minLength: 1, example: xx, enum: [xx, yy]}, \"/^b/\": \"integer[]\"}, minProperties: 1, maxProperties: 9, additionalProperties: true}\n",
			"  T: {properties: {a: {properties: {}}, b: {properties: {}, additionalProperties: false}}}\n",
			"  T: {type: array, items: {type: integer, minimum: 1, maximum: 9, multipleOf: 2}, minItems: 1, maxItems: 9, uniqueItems: true}\n",
			"  T: {type: number, minimum: 0.5, maximum: 1.5e3, multipleOf: 0.25, displayName: N, description: D, default: 1, examples: {a: 1, b: {value: 0.5}}}\n",
			"  T: {properties: {a: {type: file, fileTypes: [a/b], minLength: 0, maxLength: 3}, b: datetime, c: nil, d: boolean}, example: {a: x, b: \"2015-07-04T21:00:00Z\", c: null, d: true}}\n",
			"  T: {properties: {a: '{\"type\": \"object\", \"minProperties\": 0, \"if\": {\"const\": 1}, \"then\": {\"$comment\": \"c\", \"$id\": \"i\", \"contentEncoding\": \"base64\"}, \"else\": {\"propertyNames\": {\"minLength\": 1}, \"minContains\": 1, \"maxContains\": 2}, \"not\": {\"allOf\": [{\"oneOf\": [{\"format\": \"f\"}]}]}}'}}\n",
			"  T: {type: A, f: [1, x]}\n  A: {type: object, facets: {f: any}}\n",
			"  T: {type: A | B, description: d, default: {a: 1}}\n  A: {properties: {a: integer}}\n  B: {type: string, facets: {f: string}}\n",
		}[i-len(c14Recursive)]
	}
	r, err := vLib(doc, OptWithUnwrap(), OptWithValidate())
	vAssert(err == nil, "the type is well formed")
	b := vGet(r, "T")
	before := vShow(b, true)
	c, _ := NewJSONSchemaConverter(WithWrapper(JSONSchemaWrapper))
	var other map[string]any
	lib := r.EntryPoint().(*Library)
	first, err1 := c.Convert(b.Shape)
	m := c14Map(first)
	for p := lib.Types.Oldest(); p != nil; p = p.Next() {
		s, err := c.Convert(p.Value.Shape)
		vAssert(err == nil, "every type of a library converts")
		other = c14Map(s)
		vAssert(c14Resolve(other, other["$ref"].(string)) != nil, "every type of a library converts")
	}
	second, err2 := c.Convert(b.Shape)
	vAssert(err1 == nil && err2 == nil, "conversion can be repeated")
	vAssert(c14Same(m, c14Map(second)), "conversion can be repeated with the same converter")
	vAssert(c14Same(m, c14Map(first)), "conversion does not change earlier schemas")
	vAssert(vShow(b, true) == before, "conversion does not change the type")
	text, errText := json.Marshal(second)
	var read map[string]any
	vAssert(errText == nil && json.Unmarshal(text, &read) == nil, "a schema can be written as JSON")
	vAssert(c14SameJSON(read, m), "the JSON of a schema carries every keyword of its structure")
	var back *JSONSchemaRAML
	vAssert(json.Unmarshal(text, &back) == nil, "a schema can be read from its JSON")
	var read2 map[string]any
	text2, _ := json.Marshal(back)
	vAssert(json.Unmarshal(text2, &read2) == nil && c14Same(read, read2), "a schema can be read from its JSON")
	deep := second.DeepCopy()
	vAssert(c14Same(m, c14Map(deep)), "a deep copy of a schema is equal")
	vAssert(c14Same(m, c14Map(second.ShallowCopy())), "a shallow copy of a schema is equal")
	c14Wreck(deep)
	vAssert(c14Same(m, c14Map(second)), "a deep copy of a schema is separate")
}

// c14Wreck changes everything a schema holds.
func c14Wreck(s *JSONSchemaRAML) {
	if s == nil {
		return
	}
	two := uint64(77)
	for _, p := range []**uint64{&s.MinLength, &s.MaxLength, &s.MinItems, &s.MaxItems, &s.MinProperties, &s.MaxProperties, &s.MinContains, &s.MaxContains} {
		if *p != nil {
			**p = 77
		}
		*p = &two
	}
	for _, p := range []*bool{s.UniqueItems, s.AdditionalProperties} {
		if p != nil {
			*p = !*p
		}
	}
	for i := range s.Enum {
		s.Enum[i] = "wrecked"
	}
	for i := range s.Required {
		s.Required[i] = "wrecked"
	}
	for i := range s.Examples {
		s.Examples[i] = "wrecked"
	}
	s.Type, s.Ref, s.Title = "wrecked", "wrecked", "wrecked"
	for k, d := range s.Definitions {
		c14Wreck(d)
		s.Definitions[k+"wrecked"] = d
	}
	for _, l := range [][]*JSONSchemaRAML{s.AnyOf, s.AllOf, s.OneOf} {
		for i := range l {
			c14Wreck(l[i])
			l[i] = nil
		}
	}
	for _, d := range []*JSONSchemaRAML{s.Not, s.If, s.Then, s.Else, s.PropertyNames} {
		c14Wreck(d)
	}
	c14Wreck(s.Items)
	if s.Properties != nil {
		for p := s.Properties.Oldest(); p != nil; p = p.Next() {
			c14Wreck(p.Value)
		}
		s.Properties.Set("wrecked", nil)
	}
	if s.PatternProperties != nil {
		for p := s.PatternProperties.Oldest(); p != nil; p = p.Next() {
			c14Wreck(p.Value)
		}
		s.PatternProperties.Set("wrecked", nil)
	}
	if s.FacetDefinitions != nil {
		for p := s.FacetDefinitions.Oldest(); p != nil; p = p.Next() {
			c14Wreck(p.Value)
		}
		s.FacetDefinitions.Set("wrecked", nil)
	}
	if s.FacetData != nil {
		s.FacetData.Set("wrecked", nil)
	}
	if s.Annotations != nil {
		s.Annotations.Set("wrecked", nil)
	}
}

// VH_C14_dates: the patterns of date types accept every date the types accept.
func VH_C14_dates() {
	decl := []string{"datetime-only", "{type: datetime, format: rfc2616}"}[ndChoice(2, "type")]
	b, err := vUnwrapped("types:\n  T: "+decl+"\n", "T")
	vAssert(err == nil, "the type is well formed")
	var v string
	base := "2015-07-04T21:59:58"
	if decl[0] == '{' {
		base = "Sun, 28 Feb 2016 16:41:41 GMT"
	}
	at := ndChoice(len(base)-1, "where")
	two := func() string {
		s := ndStrN(2)
		vAssume(vAnd(s[0] >= '0', s[0] <= '9', s[1] >= '0', s[1] <= '9'))
		return s
	}
	digit := func(i int) bool { return base[i] >= '0' && base[i] <= '9' }
	vAssume(digit(at) && digit(at+1))
	v = base[:at] + two() + base[at+2:]
	if !vOK(b, v) {
		return
	}
	m := c14Convert(b, false)
	vAssert(c14OK(m, m, v, 9), "the schema of a date accepts every date that the type accepts")
}

var _ = vReg("VH_C14_fraction", VH_C14_fraction)
var _ = vReg("VH_C14_json", VH_C14_json)
var _ = vReg("VH_C14_patterns", VH_C14_patterns)
var _ = vReg("VH_C14_json_refs", VH_C14_json_refs)

// VH_C14_fraction: the same for fractions of a second.
func VH_C14_fraction() {
	b, err := vUnwrapped("types:\n  T: datetime-only\n", "T")
	vAssert(err == nil, "the type is well formed")
	s := ndStrN(2)
	vAssume(vAnd(s[0] >= '0', s[0] <= '9', s[1] >= '0', s[1] <= '9'))
	v := "2015-07-04T21:59:58." + s
	if !vOK(b, v) {
		return
	}
	m := c14Convert(b, false)
	vAssert(c14OK(m, m, v, 9), "the schema of a date accepts every date that the type accepts")
}

// VH_C14_json: a type that is a JSON schema converts to that schema.
func VH_C14_json() {
	lo, n := ndInt("lo"), ndUint("n")
	js := "{\"$schema\": \"http://json-schema.org/draft-07/schema\", \"type\": \"object\", \"title\": \"J\", \"required\": [\"a\"], \"additionalProperties\": false, \"minProperties\": 1, " +
		"\"properties\": {\"a\": {\"type\": \"integer\", \"minimum\": 5, \"maximum\": 9, \"multipleOf\": 2}, \"b\": {\"type\": \"array\", \"items\": {\"type\": \"string\", \"minLength\": 1, \"pattern\": \"^x\"}, \"uniqueItems\": true, \"minItems\": 0}, " +
		"\"c\": {\"anyOf\": [{\"type\": \"null\"}, {\"const\": \"k\"}], \"not\": {\"enum\": [\"z\", 1]}, \"description\": \"d\"}, \"d\": {\"oneOf\": [{\"type\": \"boolean\"}], \"allOf\": [{\"maxLength\": 9}], \"if\": {\"type\": \"string\"}, \"then\": {\"minLength\": 0}, \"else\": {\"maxItems\": 3}, \"format\": \"f\", \"default\": true, \"examples\": [false], \"contentEncoding\": \"base64\", \"contentMediaType\": \"m\", \"$comment\": \"c\"}}, " +
		"\"patternProperties\": {\"^p\": {\"maxProperties\": 2, \"propertyNames\": {\"pattern\": \"^q\"}, \"minContains\": 1, \"maxContains\": 2}}, \"definitions\": {\"x\": {\"$id\": \"i\", \"type\": \"string\"}}}"
	doc := "types:\n  J: '" + js + "'\n"
	path := []string{}
	switch ndChoice(5, "place") {
	case 0:
		doc += "  T: J\n"
	case 1:
		doc += "  T: {properties: {\"p\": J, \"q\": {type: integer, minimum: " + vPlace(lo) + "}}}\n"
		path = []string{"properties", "p"}
	case 2:
		doc += "  T: {type: array, items: J, minItems: " + vPlace(n) + "}\n"
		path = []string{"items"}
	case 3:
		doc += "  T: string | J\n"
		path = []string{"anyOf", "1"}
	case 4:
		doc += "  T: {properties: {\"/^p/\": {type: '" + js + "'}}}\n"
		path = []string{"patternProperties", "^p"}
	}
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "the type is well formed")
	if err != nil {
		return
	}
	var want map[string]any
	vAssert(json.Unmarshal([]byte(js), &want) == nil, "the text is JSON")
	delete(want, "$schema")
	got := c14At(c14Convert(b, ndBool("plain schema")), path...)
	vAssert(c14SameJSON(want, got), "a type that is a JSON schema converts to that schema")
}

// c14SameJSON compares decoded JSON with a rendered schema.
func c14SameJSON(a, b any) bool {
	switch x := a.(type) {
	case float64:
		if n, ok := b.(json.Number); ok {
			f, err := strconv.ParseFloat(string(n), 64)
			return err == nil && f == x
		}
		switch n := b.(type) {
		case int:
			return float64(n) == x
		case int64:
			return float64(n) == x
		case uint64:
			return float64(n) == x
		}
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !c14SameJSON(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, e := range x {
			f, has := y[k]
			if !has || !c14SameJSON(e, f) {
				return false
			}
		}
		return true
	}
	return c14Same(a, b)
}

// VH_C14_json_refs: references inside such a schema resolve and mean the same.
func VH_C14_json_refs() {
	js := []string{
		"{\"type\": \"object\", \"properties\": {\"a\": {\"$ref\": \"#/definitions/x\"}, \"n\": {\"$ref\": \"#\"}}, \"definitions\": {\"x\": {\"type\": \"string\"}}}",
		"{\"$ref\": \"#/definitions/T\", \"definitions\": {\"T\": {\"type\": \"object\", \"properties\": {\"n\": {\"$ref\": \"#/definitions/T\"}, \"a\": {\"anyOf\": [{\"$ref\": \"#/definitions/x\"}]}}}, \"x\": {\"type\": \"string\"}}}",
	}[ndChoice(2, "schema")]
	v := map[string]any{"a": []any{"x", int64(1)}[ndChoice(2, "leaf")]}
	want := v["a"] == "x"
	if ndBool("nested") {
		v = map[string]any{"n": v}
	}
	var w any = v
	doc := "types:\n  J: '" + js + "'\n  T: "
	switch ndChoice(6, "place") {
	case 0:
		doc += "J\n"
	case 1:
		doc += "{properties: {p: J, q: J}}\n"
		w = map[string]any{[]string{"p", "q"}[ndChoice(2, "which")]: v}
		w.(map[string]any)["q"] = v
		w.(map[string]any)["p"] = v
	case 2:
		doc += "{type: array, items: J}\n"
		w = []any{v}
	case 3:
		doc += "boolean | J\n"
	case 4:
		doc += "{type: J, description: d}\n"
	case 5:
		doc += "{properties: {\"n?\": T, j: J}}\n"
		w = map[string]any{"j": v, "n": map[string]any{"j": v}}
	}
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "the type is well formed")
	m := c14Convert(b, ndBool("plain schema"))
	vAssert(c14RefsResolve(m, m), "every reference of a schema resolves")
	vAssert(c14OK(m, m, w, 9) == want, "a schema accepts exactly the values that the type accepts")
}

func c14RefsResolve(root map[string]any, at any) bool {
	switch x := at.(type) {
	case []any:
		for _, e := range x {
			if !c14RefsResolve(root, e) {
				return false
			}
		}
	case map[string]any:
		if ref, ok := x["$ref"].(string); ok && c14Resolve(root, ref) == nil {
			return false
		}
		for _, e := range x {
			if !c14RefsResolve(root, e) {
				return false
			}
		}
	}
	return true
}

// VH_C14_patterns: patterns of properties that contain or border on slashes.
func VH_C14_patterns() {
	keys := []string{"/x/", "//x/", "/x//", "//", "///", "/^a/b$/", "//a//", "/ /", "/\\//", "/^/", "/x?/", "/[/]/", "/a|//", "/x/?", "/x", "x/"}
	key := keys[ndChoice(len(keys), "key")]
	lo, x := ndInt("lo"), ndInt("x")
	decl := "{properties: {'" + key + "': {type: integer, minimum: " + vPlace(lo) + "}}, additionalProperties: " + "true}"
	where := ndChoice(3, "where")
	doc := "types:\n  T: " + decl + "\n"
	switch where {
	case 1:
		doc = "types:\n  S: " + decl + "\n  T: {type: S}\n"
	case 2:
		doc = "types:\n  T: {properties: {n: " + decl + "}}\n"
	}
	b, err := vUnwrapped(doc, "T")
	if err != nil {
		return
	}
	names := []string{"x", "/x", "x/", "/x/", "a", "/", "//", " ", "", "a/b", "xy", "//a//", "/^a/b$/"}
	v := any(map[string]any{names[ndChoice(len(names), "name")]: []any{x, "s"}[ndChoice(2, "value")]})
	if where == 2 {
		v = map[string]any{"n": v}
	}
	c14Judge(b, v, ndBool("plain"))
}
