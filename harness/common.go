package raml

import (
	"sort"
	"strconv"
	"strings"
)

const vLoc = "/vx/lib.raml"

// vLib parses a library given its body.
func vLib(body string, opts ...ParseOpt) (*RAML, error) {
	return ParseFromString("#%RAML 1.0 Library\n"+body, "lib.raml", "/vx", opts...)
}

// vGet returns a type of the entry-point library.
func vGet(r *RAML, name string) *BaseShape {
	lib, ok := r.EntryPoint().(*Library)
	if !ok {
		return nil
	}
	b, _ := lib.Types.Get(name)
	return b
}

// vUnwrapped parses the library, unwraps it and returns the named type.
func vUnwrapped(body, name string) (*BaseShape, error) {
	r, err := vLib(body, OptWithUnwrap())
	if err != nil {
		return nil, err
	}
	return vGet(r, name), nil
}

// vOK reports whether a shape accepts a value.
func vOK(b *BaseShape, v any) bool { return b.Validate(v) == nil }

// vInd indents a block.
func vInd(n int, s string) string {
	p := strings.Repeat(" ", n)
	return p + s + "\n"
}

// vWarmup runs once before the explored paths: it fills the parser generator's tables and
// lookahead caches, so the explored state is that of a process that already parsed one library.
func vWarmup() {
	vLib("types:\n  A: string\n  B: A | integer\n  C: (A | B)[]\n  D: A?\n  E: A[]\n  F: a.B | A\n  G: [A, B]\n  H:\n    type: A\n    minLength: 1\n  I: A | B | C\n  J: string[][]\n  K: (A | B)\n  L: integer | string\n  M: (A | B) | C\n  N: A | (B | C)\n  O: A[] | B\n  P: a.B\n  Q: a.B[]\n  R: string | nil\n  S: number\n  X0: \"((A)[])?\"\n  X1: \"((A | B)[] | C)?\"\n  X2: \"A | ((A)[])?\"\n  X3: \"(A?)[]\"\n  X4: \"(A[])?\"\n  X5: \"(A | B)?\"\n  X6: \"A?|B[]|(A)\"\n  X7: \"((A)?)[] | (B)\"\n")
}

// vFacet reads a facet of an unwrapped type; nil when it is absent.
func vFacet(b *BaseShape, name string) any {
	u := func(p *uint64) any {
		if p == nil {
			return nil
		}
		return *p
	}
	f := func(p *float64) any {
		if p == nil {
			return nil
		}
		return *p
	}
	s := func(p *string) any {
		if p == nil {
			return nil
		}
		return *p
	}
	bo := func(p *bool) any {
		if p == nil {
			return nil
		}
		return *p
	}
	n := func(x Nodes) any {
		if x == nil {
			return nil
		}
		var l []string
		for _, e := range x {
			switch v := e.Value.(type) {
			case string:
				l = append(l, v)
			case bool:
				l = append(l, vPlace(v))
			case int:
				l = append(l, vPlace(int64(v)))
			default:
				l = append(l, "?")
			}
		}
		return strings.Join(l, ",")
	}
	if name == "description" {
		return s(b.Description)
	}
	switch t := b.Shape.(type) {
	case *IntegerShape:
		switch name {
		case "minimum":
			if t.Minimum == nil {
				return nil
			}
			return t.Minimum.Int64()
		case "maximum":
			if t.Maximum == nil {
				return nil
			}
			return t.Maximum.Int64()
		case "multipleOf":
			return f(t.MultipleOf)
		case "format":
			return s(t.Format)
		case "enum":
			return n(t.Enum)
		}
	case *NumberShape:
		switch name {
		case "minimum":
			return f(t.Minimum)
		case "maximum":
			return f(t.Maximum)
		case "multipleOf":
			return f(t.MultipleOf)
		case "format":
			return s(t.Format)
		case "enum":
			return n(t.Enum)
		}
	case *StringShape:
		switch name {
		case "minLength":
			return u(t.MinLength)
		case "maxLength":
			return u(t.MaxLength)
		case "enum":
			return n(t.Enum)
		case "pattern":
			if t.Pattern == nil {
				return nil
			}
			return t.Pattern.String()
		}
	case *FileShape:
		switch name {
		case "minLength":
			return u(t.MinLength)
		case "maxLength":
			return u(t.MaxLength)
		case "fileTypes":
			return n(t.FileTypes)
		}
	case *BooleanShape:
		if name == "enum" {
			return n(t.Enum)
		}
	case *DateTimeShape:
		if name == "format" {
			return s(t.Format)
		}
	case *ArrayShape:
		switch name {
		case "minItems":
			return u(t.MinItems)
		case "maxItems":
			return u(t.MaxItems)
		case "uniqueItems":
			return bo(t.UniqueItems)
		case "items":
			if t.Items == nil {
				return nil
			}
			return t.Items.Type
		}
	case *ObjectShape:
		switch name {
		case "minProperties":
			return u(t.MinProperties)
		case "maxProperties":
			return u(t.MaxProperties)
		case "additionalProperties":
			return bo(t.AdditionalProperties)
		case "discriminator":
			return s(t.Discriminator)
		case "properties":
			var l []string
			for p := t.Properties.Oldest(); p != nil; p = p.Next() {
				k := p.Key
				if !p.Value.Required {
					k += "?"
				}
				l = append(l, k+":"+p.Value.Base.Type)
			}
			for p := t.PatternProperties.Oldest(); p != nil; p = p.Next() {
				l = append(l, p.Key+":"+p.Value.Base.Type)
			}
			return strings.Join(l, ",")
		}
	}
	return "no such facet " + name
}

var vFacetNames = []string{"minimum", "maximum", "multipleOf", "format", "enum", "minLength", "maxLength", "pattern", "fileTypes", "minItems", "maxItems", "uniqueItems", "minProperties", "maxProperties", "additionalProperties", "discriminator"}

// vChildren lists the shapes a shape refers to directly.
func vChildren(b *BaseShape, parents bool) []*BaseShape {
	var l []*BaseShape
	if b.Shape != nil {
		switch t := b.Shape.(type) {
		case *ArrayShape:
			if t.Items != nil {
				l = append(l, t.Items)
			}
		case *ObjectShape:
			for p := t.Properties.Oldest(); p != nil; p = p.Next() {
				l = append(l, p.Value.Base)
			}
			for p := t.PatternProperties.Oldest(); p != nil; p = p.Next() {
				l = append(l, p.Value.Base)
			}
		case *UnionShape:
			l = append(l, t.AnyOf...)
		case *RecursiveShape:
			l = append(l, t.Head)
		}
	}
	for p := b.CustomShapeFacetDefinitions.Oldest(); p != nil; p = p.Next() {
		l = append(l, p.Value.Base)
	}
	if parents {
		l = append(l, b.Inherits...)
		if b.Alias != nil {
			l = append(l, b.Alias)
		}
		if b.Link != nil && b.Link.Shape != nil {
			l = append(l, b.Link.Shape)
		}
	}
	return l
}

// vReachable collects every shape reachable from b.
func vReachable(b *BaseShape, parents bool) []*BaseShape {
	seen := map[*BaseShape]bool{b: true}
	l := []*BaseShape{b}
	for i := 0; i < len(l); i++ {
		for _, c := range vChildren(l[i], parents) {
			if !seen[c] {
				seen[c] = true
				l = append(l, c)
			}
		}
	}
	return l
}

// vShow renders a type with all its facets, its nested types and (parents) its links.
func vShow(b *BaseShape, parents bool) string {
	seen := map[*BaseShape]int{}
	var sb strings.Builder
	vShowTo(&sb, b, parents, seen)
	return sb.String()
}

func vShowTo(sb *strings.Builder, b *BaseShape, parents bool, seen map[*BaseShape]int) {
	if b == nil {
		sb.WriteString("<nil>")
		return
	}
	if n, ok := seen[b]; ok {
		sb.WriteString("#" + strconv.Itoa(n))
		return
	}
	seen[b] = len(seen)
	sb.WriteString(b.Type + "{")
	str := func(n string, p *string) {
		if p != nil {
			sb.WriteString(n + "=" + *p + ";")
		}
	}
	str("description", b.Description)
	str("displayName", b.DisplayName)
	if b.Required != nil {
		sb.WriteString("required=" + strconv.FormatBool(*b.Required) + ";")
	}
	if b.Default != nil {
		sb.WriteString("default=" + vTxt(b.Default.Value) + ";")
	}
	if b.Example != nil && b.Example.Data != nil {
		sb.WriteString("example=" + vTxt(b.Example.Data.Value) + ";")
	}
	if b.Examples != nil {
		for p := b.Examples.Map.Oldest(); p != nil; p = p.Next() {
			sb.WriteString("example " + p.Key + "=" + vTxt(p.Value.Data.Value) + ";")
		}
	}
	for p := b.CustomShapeFacets.Oldest(); p != nil; p = p.Next() {
		sb.WriteString("facet " + p.Key + "=" + vTxt(p.Value.Value) + ";")
	}
	for p := b.CustomDomainProperties.Oldest(); p != nil; p = p.Next() {
		sb.WriteString("(" + p.Key + ")=" + vTxt(p.Value.Extension.Value) + ";")
	}
	for p := b.CustomShapeFacetDefinitions.Oldest(); p != nil; p = p.Next() {
		sb.WriteString("facet def " + p.Key + " " + strconv.FormatBool(p.Value.Required) + "=")
		vShowTo(sb, p.Value.Base, parents, seen)
	}
	if b.Shape != nil {
		for _, n := range vFacetNames {
			if v := vFacet(b, n); v != nil && v != any("no such facet "+n) {
				sb.WriteString(n + "=" + vTxt(v) + ";")
			}
		}
	}
	switch t := b.Shape.(type) {
	case *ArrayShape:
		if t.Items != nil {
			sb.WriteString("items=")
			vShowTo(sb, t.Items, parents, seen)
		}
	case *ObjectShape:
		if t.DiscriminatorValue != nil {
			sb.WriteString("discriminatorValue=" + vTxt(t.DiscriminatorValue) + ";")
		}
		for p := t.Properties.Oldest(); p != nil; p = p.Next() {
			sb.WriteString(p.Key + " " + p.Value.Name + " " + strconv.FormatBool(p.Value.Required) + "=")
			vShowTo(sb, p.Value.Base, parents, seen)
		}
		for p := t.PatternProperties.Oldest(); p != nil; p = p.Next() {
			sb.WriteString(p.Key + " " + p.Value.Pattern.String() + "=")
			vShowTo(sb, p.Value.Base, parents, seen)
		}
	case *UnionShape:
		for _, m := range t.AnyOf {
			vShowTo(sb, m, parents, seen)
			sb.WriteString("|")
		}
	case *RecursiveShape:
		sb.WriteString("head=")
		vShowTo(sb, t.Head, parents, seen)
	case *JSONShape:
		sb.WriteString("json=" + t.Raw + ";")
	}
	if parents {
		for _, p := range b.Inherits {
			sb.WriteString("inherits=")
			vShowTo(sb, p, parents, seen)
		}
		if b.Alias != nil {
			sb.WriteString("alias=")
			vShowTo(sb, b.Alias, parents, seen)
		}
		if b.Link != nil {
			sb.WriteString("link " + b.Link.Location + "=")
			vShowTo(sb, b.Link.Shape, parents, seen)
		}
	}
	sb.WriteString("}")
}

// vTxt renders a concrete value.
func vTxt(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case string:
		return "'" + x + "'"
	case bool:
		return strconv.FormatBool(x)
	case int:
		return strconv.Itoa(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case uint64:
		return strconv.FormatUint(x, 10)
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case []any:
		s := "["
		for _, e := range x {
			s += vTxt(e) + ","
		}
		return s + "]"
	case map[string]any:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "{"
		for _, k := range ks {
			s += k + ":" + vTxt(x[k]) + ","
		}
		return s + "}"
	}
	return "?"
}
