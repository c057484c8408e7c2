package raml

import (
	"strings"
	"unicode/utf8"
)

// gT is a type as the harness sees it: it renders to RAML, it decides (as a formula) whether a
// value belongs to it, and it generates values around it.
type gT struct {
	k        string // integer number string boolean nil any array object union ref
	lo, hi   *int64
	nlo, nhi *uint64
	enum     []any
	uniq     bool
	items    *gT
	props    []gP
	pats     []gP
	closed   bool
	of       []*gT
	name     string // of a ref
	def      *gT    // of a ref
}

type gP struct {
	n     string
	t     *gT
	opt   bool
	match func(string) bool
}

func gInt(tag string) *gT {
	lo, hi := ndInt(tag+".lo"), ndInt(tag+".hi")
	return &gT{k: "integer", lo: &lo, hi: &hi}
}

func gMin(tag string) *gT {
	lo := ndInt(tag + ".lo")
	return &gT{k: "integer", lo: &lo}
}

func gMax(tag string) *gT {
	hi := ndInt(tag + ".hi")
	return &gT{k: "integer", hi: &hi}
}

func gStr(tag string) *gT {
	lo, hi := ndUint(tag+".min"), ndUint(tag+".max")
	return &gT{k: "string", nlo: &lo, nhi: &hi}
}

func gK(k string) *gT                 { return &gT{k: k} }
func gRef(name string, def *gT) *gT   { return &gT{k: "ref", name: name, def: def} }
func gArr(items *gT) *gT              { return &gT{k: "array", items: items} }
func gObj(props ...gP) *gT            { return &gT{k: "object", props: props} }
func gU(of ...*gT) *gT                { return &gT{k: "union", of: of} }
func gReq(n string, t *gT) gP         { return gP{n: n, t: t} }
func gOpt(n string, t *gT) gP         { return gP{n: n, t: t, opt: true} }
func (t *gT) with(pats ...gP) *gT     { t.pats = pats; return t }
func (t *gT) close() *gT              { t.closed = true; return t }
func (t *gT) unique() *gT             { t.uniq = true; return t }
func (t *gT) count(lo, hi uint64) *gT { t.nlo, t.nhi = &lo, &hi; return t }
func gPre(p string, t *gT) gP {
	return gP{n: "/^" + p + "/", t: t, match: func(s string) bool { return strings.HasPrefix(s, p) }}
}
func gSuf(p string, t *gT) gP {
	return gP{n: "/" + p + "$/", t: t, match: func(s string) bool { return strings.HasSuffix(s, p) }}
}

// plain reports whether a type can be written as an expression.
func (t *gT) plain() bool {
	switch t.k {
	case "ref":
		return true
	case "union":
		for _, m := range t.of {
			if !m.plain() {
				return false
			}
		}
		return true
	case "array":
		return t.items != nil && t.items.plain() && t.nlo == nil && t.nhi == nil && !t.uniq
	case "object":
		return len(t.props) == 0 && len(t.pats) == 0 && !t.closed && t.nlo == nil && t.nhi == nil
	}
	return t.lo == nil && t.hi == nil && t.nlo == nil && t.nhi == nil && t.enum == nil
}

func (t *gT) expr() string {
	switch t.k {
	case "ref":
		return t.name
	case "union":
		s := ""
		for i, m := range t.of {
			if i > 0 {
				s += " | "
			}
			if m.k == "union" {
				s += "(" + m.expr() + ")"
			} else {
				s += m.expr()
			}
		}
		return s
	case "array":
		if t.items.k == "union" || t.items.k == "array" {
			return "(" + t.items.expr() + ")[]"
		}
		return t.items.expr() + "[]"
	}
	return t.k
}

// yaml renders the value of a key at the given indentation.
func (t *gT) yaml(n int) string {
	if t.plain() {
		return " " + t.expr() + "\n"
	}
	p := "\n" + strings.Repeat(" ", n+2)
	s := ""
	switch t.k {
	case "union":
		return "<union with inline members>"
	default:
		s += p + "type: " + t.k
	}
	if t.lo != nil {
		s += p + "minimum: " + vPlace(*t.lo)
	}
	if t.hi != nil {
		s += p + "maximum: " + vPlace(*t.hi)
	}
	f := map[string]string{"string": "Length", "array": "Items", "object": "Properties"}[t.k]
	if t.nlo != nil {
		s += p + "min" + f + ": " + vPlace(*t.nlo)
	}
	if t.nhi != nil {
		s += p + "max" + f + ": " + vPlace(*t.nhi)
	}
	if t.uniq {
		s += p + "uniqueItems: true"
	}
	if t.closed {
		s += p + "additionalProperties: false"
	}
	if t.enum != nil {
		s += p + "enum:"
		for _, e := range t.enum {
			s += p + "  - " + vTxtYAML(e)
		}
	}
	s += "\n"
	if t.items != nil {
		s += p[1:] + "items:" + t.items.yaml(n+2)
	}
	if len(t.props) > 0 || len(t.pats) > 0 {
		s += p[1:] + "properties:\n"
		for _, x := range t.props {
			key := x.n
			if x.opt {
				key += "?"
			}
			s += p[1:] + "  \"" + key + "\":" + x.t.yaml(n+4)
		}
		for _, x := range t.pats {
			s += p[1:] + "  \"" + x.n + "\":" + x.t.yaml(n+4)
		}
	}
	return s
}

func vTxtYAML(v any) string {
	if s, ok := v.(string); ok {
		return "\"" + s + "\""
	}
	return vTxt(v)
}

// refs lists the named types reachable from t, in the order they are met.
func (t *gT) refs(seen map[string]*gT, l []*gT) []*gT {
	if t == nil {
		return l
	}
	if t.k == "ref" {
		if seen[t.name] != nil {
			return l
		}
		seen[t.name] = t
		l = append(l, t)
		return t.def.refs(seen, l)
	}
	l = t.items.refs(seen, l)
	for _, p := range t.props {
		l = p.t.refs(seen, l)
	}
	for _, p := range t.pats {
		l = p.t.refs(seen, l)
	}
	for _, m := range t.of {
		l = m.refs(seen, l)
	}
	return l
}

// gDoc renders a library that declares T and the types it needs.
func gDoc(t *gT) string {
	s := "types:\n"
	l := t.refs(map[string]*gT{}, nil)
	last := ndBool("T last")
	if !last && !(t.k == "ref" && t.name == "T") {
		s += "  T:" + t.yaml(2)
	}
	for i := range l {
		r := l[i]
		if last {
			r = l[len(l)-1-i]
		}
		s += "  " + r.name + ":" + r.def.yaml(2)
	}
	if last && !(t.k == "ref" && t.name == "T") {
		s += "  T:" + t.yaml(2)
	}
	return s
}

// gDates are the only texts that meet the date kinds.
var gDates = map[string]string{"date-only": "2020-01-02", "datetime": "2020-01-02T12:30:00Z"}

// ok is the oracle: a formula that says whether v belongs to the type.
func (t *gT) ok(v any) bool {
	switch t.k {
	case "ref":
		return t.def.ok(v)
	case "any":
		return true
	case "nil":
		return v == nil
	case "boolean":
		_, ok := v.(bool)
		return ok
	case "date-only", "datetime":
		s, ok := v.(string)
		return ok && s == gDates[t.k]
	case "union":
		r := false
		for _, m := range t.of {
			r = vOr(r, m.ok(v))
		}
		return r
	case "number":
		switch v.(type) {
		case int64, float64:
			return true
		}
		return false
	case "integer":
		x, ok := v.(int64)
		if !ok {
			return false
		}
		r := true
		if t.lo != nil {
			r = vAnd(r, x >= *t.lo)
		}
		if t.hi != nil {
			r = vAnd(r, x <= *t.hi)
		}
		if t.enum != nil {
			m := false
			for _, e := range t.enum {
				m = vOr(m, x == e.(int64))
			}
			r = vAnd(r, m)
		}
		return r
	case "string":
		s, ok := v.(string)
		if !ok {
			return false
		}
		return t.within(uint64(utf8.RuneCountInString(s)))
	case "array":
		l, ok := v.([]any)
		if !ok {
			return false
		}
		r := t.within(uint64(len(l)))
		for i, e := range l {
			if t.items != nil {
				r = vAnd(r, t.items.ok(e))
			}
			for j := 0; t.uniq && j < i; j++ {
				r = vAnd(r, !gEq(e, l[j]))
			}
		}
		return r
	case "object":
		m, ok := v.(map[string]any)
		if !ok {
			return false
		}
		r := t.within(uint64(len(m)))
		for _, p := range t.props {
			if _, has := m[p.n]; !has && !p.opt {
				return false
			}
		}
		for k, e := range m {
			r = vAnd(r, t.key(k, e))
		}
		return r
	}
	panic("kind " + t.k)
}

func (t *gT) key(k string, e any) bool {
	for _, p := range t.props {
		if p.n == k {
			return p.t.ok(e)
		}
	}
	if t.closed {
		return false
	}
	any, r := false, false
	for _, p := range t.pats {
		if p.match(k) {
			any = true
			r = vOr(r, p.t.ok(e))
		}
	}
	return vOr(!any, r)
}

func (t *gT) within(n uint64) bool {
	r := true
	if t.nlo != nil {
		r = vAnd(r, n >= *t.nlo)
	}
	if t.nhi != nil {
		r = vAnd(r, n <= *t.nhi)
	}
	return r
}

// gEq is equality of JSON values as a formula.
func gEq(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && vIff(x, y)
	case int64:
		y, ok := b.(int64)
		return vAnd(ok, x == y)
	case string:
		y, ok := b.(string)
		return ok && x == y
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = vAnd(r, gEq(x[i], y[i]))
		}
		return r
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for k, e := range x {
			f, has := y[k]
			if !has {
				return false
			}
			r = vAnd(r, gEq(e, f))
		}
		return r
	}
	panic("value")
}

// gGen generates values around a type: the structure of a member with symbolic leaves, changed
// at the nodes numbered in dev.
type gGen struct {
	dev   []int // nodes that deviate
	n     int   // nodes so far
	depth int   // how often a recursive type may still be entered
	long  int   // length of arrays
}

func (g *gGen) here() bool {
	i := g.n
	g.n++
	for _, d := range g.dev {
		if d == i {
			return true
		}
	}
	return false
}

var gOddKeys = []string{"zz", "", "a.b", "xa", "xyz", "A"}

func (g *gGen) other(name string) any {
	switch ndChoice(9, name) {
	case 0:
		return nil
	case 1:
		return ndBool("dev.b")
	case 2:
		return ndInt("dev.i")
	case 3:
		return ndAtom(9)
	case 4:
		return []any{}
	case 5:
		return []any{ndInt("dev.i0")}
	case 6:
		return map[string]any{}
	case 7:
		return []any{map[string]any{}, map[string]any{}}
	}
	return map[string]any{"a": ndInt("dev.a")}
}

func (g *gGen) val(t *gT) any {
	if t.k == "ref" {
		return g.val(t.def)
	}
	if t.k == "union" { // one of the members
		return g.val(t.of[ndChoice(len(t.of), "member")])
	}
	if g.here() {
		switch {
		case t.k == "object" && ndBool("dev keys"):
			m := g.obj(t)
			if len(t.props) > 0 && ndBool("dev drop") {
				delete(m, t.props[ndChoice(len(t.props), "dev which")].n)
				return m
			}
			k := gOddKeys[ndChoice(len(gOddKeys), "dev key")]
			m[k] = g.leaf("dev value")
			return m
		case t.k == "array" && ndBool("dev items"):
			l := g.arr(t)
			switch ndChoice(3, "dev array") {
			case 0:
				return l[:ndChoice(len(l), "dev len")]
			case 1:
				l[len(l)-1] = l[0]
				return l
			}
			l[len(l)-1] = g.leaf("dev last")
			return l
		}
		return g.other("dev")
	}
	switch t.k {
	case "integer", "number":
		return ndInt("i")
	case "string":
		return ndAtom(9)
	case "boolean":
		return ndBool("b")
	case "nil":
		return nil
	case "any":
		return ndInt("any")
	case "array":
		return g.arr(t)
	}
	return g.obj(t)
}

func (g *gGen) leaf(name string) any {
	switch ndChoice(4, name) {
	case 0:
		return nil
	case 1:
		return ndInt("leaf.i")
	case 2:
		return ndAtom(9)
	}
	return map[string]any{}
}

func (g *gGen) arr(t *gT) []any {
	if g.depth <= 0 {
		return []any{}
	}
	g.depth--
	l := make([]any, g.long)
	for i := range l {
		if t.items == nil {
			l[i] = ndInt("item")
		} else {
			l[i] = g.val(t.items)
		}
	}
	g.depth++
	return l
}

func (g *gGen) obj(t *gT) map[string]any {
	m := map[string]any{}
	g.depth--
	for _, p := range t.props {
		if g.depth <= 0 && p.opt {
			continue
		}
		m[p.n] = g.val(p.t)
	}
	if g.depth > 0 {
		for _, p := range t.pats {
			m[strings.Trim(p.n, "/^$")] = g.val(p.t)
		}
	}
	g.depth++
	return m
}

// sane is a formula that says whether no type contradicts itself.
func (t *gT) sane() bool {
	r := t.sane1()
	for _, x := range t.refs(map[string]*gT{}, nil) {
		r = vAnd(r, x.def.sane1())
	}
	return r
}

func (t *gT) sane1() bool {
	if t == nil {
		return true
	}
	r := true
	if t.lo != nil && t.hi != nil {
		r = *t.lo <= *t.hi
	}
	if t.nlo != nil && t.nhi != nil {
		r = vAnd(r, *t.nlo <= *t.nhi)
	}
	r = vAnd(r, t.items.sane1())
	for _, p := range t.props {
		r = vAnd(r, p.t.sane1())
	}
	for _, p := range t.pats {
		r = vAnd(r, p.t.sane1())
	}
	for _, m := range t.of {
		r = vAnd(r, m.sane1())
	}
	return r
}
