package main

import (
	"go/types"
	"io"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"gopkg.in/yaml.v3"
)

const yamlPkg = "gopkg.in/yaml.v3"

var placeRe = regexp.MustCompile(`__SYM(\d+)__`)

// placeVal resolves placeholder text to a symbolic value, or the text itself.
func (in *Interp) placeVal(s string) Value {
	if !strings.Contains(s, "__SYM") || in.p == nil {
		return s
	}
	locs := placeRe.FindAllStringSubmatchIndex(s, -1)
	var acc Value = ""
	last := 0
	for _, l := range locs {
		acc = in.catStr(acc, s[last:l[0]])
		i, _ := strconv.Atoi(s[l[2]:l[3]])
		acc = in.catStr(acc, in.p.places[i])
		last = l[1]
	}
	return in.catStr(acc, s[last:])
}

// nodeFromNative converts a native yaml node to an engine *yaml.Node.
func (in *Interp) nodeFromNative(n *yaml.Node, seen map[*yaml.Node]*Value) Value {
	if n == nil {
		return (*Value)(nil)
	}
	if p, ok := seen[n]; ok {
		return p
	}
	t := in.namedType(yamlPkg, "Node")
	p := new(Value)
	s := zero(t).(Struct)
	*p = s
	seen[n] = p
	set := func(f string, v Value) { s[fieldIdx(t, f)] = v }
	set("Kind", uint64(n.Kind))
	set("Style", uint64(n.Style))
	tag := n.Tag
	var val Value = n.Value
	if n.Kind == yaml.ScalarNode {
		val = in.placeVal(n.Value)
		if _, isStr := val.(string); !isStr && n.Style&(yaml.DoubleQuotedStyle|yaml.SingleQuotedStyle) == 0 {
			switch v := val.(type) {
			case *NumStr:
				tag = "!!int"
				_ = v
			case *FltStr:
				tag = "!!float"
			case *BoolStr:
				tag = "!!bool"
			}
		}
	}
	set("Tag", tag)
	set("Value", val)
	set("Anchor", n.Anchor)
	set("Alias", in.nodeFromNative(n.Alias, seen))
	if n.Content != nil {
		c := make(Slice, len(n.Content))
		for i, x := range n.Content {
			c[i] = in.nodeFromNative(x, seen)
		}
		set("Content", c)
	}
	set("HeadComment", n.HeadComment)
	set("LineComment", n.LineComment)
	set("FootComment", n.FootComment)
	set("Line", uint64(n.Line))
	set("Column", uint64(n.Column))
	return p
}

type ynode struct {
	in *Interp
	s  Struct
	t  types.Type
}

func (in *Interp) ynode(p Value) ynode {
	return ynode{in, (*in.nilCheck(p)).(Struct), in.namedType(yamlPkg, "Node")}
}
func (n ynode) f(name string) Value { return n.s[fieldIdx(n.t, name)] }
func (n ynode) kind() yaml.Kind     { return yaml.Kind(n.in.concInt(n.f("Kind"), 32)) }
func (n ynode) content() Slice      { return n.f("Content").(Slice) }
func (n ynode) str(name string) string {
	return n.in.strPinOr(n.f(name))
}

// toNativeNode rebuilds a native node when everything below is concrete.
func (in *Interp) toNativeNode(p Value, depth int) (*yaml.Node, bool) {
	pp := p.(*Value)
	if pp == nil {
		return nil, true
	}
	if depth > 100 {
		in.unsup("yaml node depth")
	}
	n := in.ynode(p)
	out := &yaml.Node{Kind: n.kind(), Style: yaml.Style(in.concInt(n.f("Style"), 32))}
	v, ok := n.f("Value").(string)
	if !ok {
		return nil, false
	}
	tg, ok := n.f("Tag").(string)
	if !ok {
		return nil, false
	}
	out.Value, out.Tag = v, tg
	out.Line = int(in.concInt(n.f("Line"), 64))
	out.Column = int(in.concInt(n.f("Column"), 64))
	a, ok := in.toNativeNode(n.f("Alias"), depth+1)
	if !ok {
		return nil, false
	}
	out.Alias = a
	for _, c := range n.content() {
		x, ok := in.toNativeNode(c, depth+1)
		if !ok {
			return nil, false
		}
		out.Content = append(out.Content, x)
	}
	return out, true
}

func (in *Interp) yamlErr(line int, msg string) Value {
	t := in.namedType(yamlPkg, "TypeError")
	p := new(Value)
	*p = Struct{Slice{"line " + strconv.Itoa(line) + ": " + msg}}
	return Iface{types.NewPointer(t), p}
}

func (in *Interp) goYamlErr(err error) Value {
	if te, ok := err.(*yaml.TypeError); ok {
		t := in.namedType(yamlPkg, "TypeError")
		p := new(Value)
		var l Slice
		for _, e := range te.Errors {
			l = append(l, e)
		}
		*p = Struct{l}
		return Iface{types.NewPointer(t), p}
	}
	return in.errIfaceFromGo(err)
}

func merge(errs []Value, e Value) []Value {
	if e.(Iface).t != nil {
		return append(errs, e)
	}
	return errs
}

// mergeErr joins several decode errors the way yaml.v3 does: type errors accumulate, others are returned at once.
func (in *Interp) mergeErr(errs []Value) Value {
	if len(errs) == 0 {
		return Iface{}
	}
	return errs[0]
}

// decodeNode decodes an engine yaml node into *dst of type t; returns an error Iface.
func (in *Interp) decodeNode(p Value, t types.Type, dst *Value) Value {
	n := in.ynode(p)
	k := n.kind()
	if k == yaml.AliasNode {
		return in.decodeNode(n.f("Alias"), t, dst)
	}
	// yaml.Node target
	if nt, ok := t.(*types.Named); ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == yamlPkg && nt.Obj().Name() == "Node" {
		in.store(dst, copyVal(n.s))
		return Iface{}
	}
	if k == yaml.DocumentNode {
		c := n.content()
		if len(c) == 0 {
			return Iface{}
		}
		return in.decodeNode(c[0], t, dst)
	}
	isNull := k == 0 || (k == yaml.ScalarNode && in.isNullScalar(n))
	if !isNull {
		// prepare: allocate through pointers, then look for an unmarshaler
		pt := types.NewPointer(t)
		if f := in.lookupMethod(pt, nil, "UnmarshalYAML"); f != nil {
			ps := f.Signature.Params()
			if ps.Len() == 1 && in.typeString(ps.At(0).Type()) == "*yaml.Node" {
				return in.callFn(in.cur, f, []Value{dst, p}, nil)
			}
			in.unsup("old-style UnmarshalYAML on %s", t)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if isNull {
			in.store(dst, (*Value)(nil))
			return Iface{}
		}
		q, _ := (*dst).(*Value)
		if q == nil {
			q = new(Value)
			*q = zero(u.Elem())
			in.store(dst, q)
		}
		return in.decodeNode(p, u.Elem(), q)
	case *types.Interface:
		if u.NumMethods() > 0 {
			in.unsup("yaml into non-empty interface")
		}
		v, err := in.decodeAny(p, 0)
		if err != nil {
			return err
		}
		in.store(dst, v)
		return Iface{}
	}
	if isNull {
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map:
			in.store(dst, zero(t))
		}
		return Iface{}
	}
	line := int(in.concInt(n.f("Line"), 64))
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if k != yaml.ScalarNode {
			what := "!!map"
			if k == yaml.SequenceNode {
				what = "!!seq"
			}
			return in.yamlErr(line, "cannot unmarshal "+what+" into "+in.typeString(t))
		}
		return in.decodeScalar(n, t, dst, line)
	case *types.Slice:
		if k != yaml.SequenceNode {
			if k == yaml.ScalarNode && n.str("Value") == "" && n.f("Tag") == "!!null" {
				return Iface{}
			}
			return in.yamlErr(line, "cannot unmarshal "+n.str("Tag")+" into "+in.typeString(t))
		}
		var errs []Value
		c := n.content()
		s := make(Slice, 0, len(c))
		for _, e := range c {
			q := new(Value)
			*q = zero(u.Elem())
			er := in.decodeNode(e, u.Elem(), q)
			errs = merge(errs, er)
			if er.(Iface).t == nil {
				s = append(s, *q)
			}
		}
		in.store(dst, s)
		return in.mergeErr(errs)
	case *types.Map:
		if k != yaml.MappingNode {
			return in.yamlErr(line, "cannot unmarshal "+n.str("Tag")+" into "+in.typeString(t))
		}
		m := newMap()
		c := n.content()
		var errs []Value
		for i := 0; i+1 < len(c); i += 2 {
			kq, vq := new(Value), new(Value)
			*kq, *vq = zero(u.Key()), zero(u.Elem())
			e1 := in.decodeNode(c[i], u.Key(), kq)
			errs = merge(errs, e1)
			e2 := in.decodeNode(c[i+1], u.Elem(), vq)
			errs = merge(errs, e2)
			if e1.(Iface).t == nil && e2.(Iface).t == nil {
				in.mapSet(m, u.Key(), *kq, *vq)
			}
		}
		in.store(dst, m)
		return in.mergeErr(errs)
	}
	in.unsup("yaml decode into %s", t)
	return nil
}

func (in *Interp) isNullScalar(n ynode) bool {
	tag, ok := n.f("Tag").(string)
	if !ok {
		return false
	}
	if tag == "!!null" {
		return true
	}
	if tag != "" && tag != "!" {
		return false
	}
	st := yaml.Style(in.concInt(n.f("Style"), 32))
	if st&(yaml.SingleQuotedStyle|yaml.DoubleQuotedStyle|yaml.LiteralStyle|yaml.FoldedStyle) != 0 {
		return false
	}
	v, ok := n.f("Value").(string)
	return ok && (v == "" || v == "~" || v == "null" || v == "Null" || v == "NULL")
}

func (in *Interp) decodeScalar(n ynode, t types.Type, dst *Value, line int) Value {
	k := kindOf(t)
	v := n.f("Value")
	fail := func() Value {
		return in.yamlErr(line, "cannot unmarshal "+n.str("Tag")+" into "+in.typeString(t))
	}
	tag := n.str("Tag")
	if s, ok := v.(string); ok {
		nn := &yaml.Node{Kind: yaml.ScalarNode, Value: s, Tag: tag, Line: line, Style: yaml.Style(in.concInt(n.f("Style"), 32))}
		var err error
		var r Value
		switch k.k {
		case 's':
			var x string
			err = nn.Decode(&x)
			r = x
		case 'b':
			var x bool
			err = nn.Decode(&x)
			r = x
		case 'f':
			var x float64
			err = nn.Decode(&x)
			r = x
		case 'i':
			if k.signed {
				var x int64
				err = nn.Decode(&x)
				r = uint64(x)
				if err == nil && k.w < 64 && sext(uint64(x), k.w) != x {
					return fail()
				}
			} else {
				var x uint64
				err = nn.Decode(&x)
				r = x
				if err == nil && k.w < 64 && x&mask(k.w) != x {
					return fail()
				}
			}
		default:
			return fail()
		}
		if err != nil {
			if te, ok := err.(*yaml.TypeError); ok {
				for i := range te.Errors {
					te.Errors[i] = strings.Replace(te.Errors[i], " into int64", " into "+in.typeString(t), 1)
					te.Errors[i] = strings.Replace(te.Errors[i], " into uint64", " into "+in.typeString(t), 1)
				}
			}
			return in.goYamlErr(err)
		}
		if k.k == 'i' {
			r = r.(uint64) & mask(k.w)
		}
		in.store(dst, r)
		return Iface{}
	}
	c := in.c
	quoted := tag == "!!str"
	if quoted {
		if k.k == 's' {
			in.store(dst, v)
			return Iface{}
		}
		return fail()
	}
	switch x := v.(type) {
	case *NumStr:
		switch k.k {
		case 's':
			in.store(dst, x)
			return Iface{}
		case 'i':
			e := c.Resize(x.e, 128, x.signed)
			low := c.Resize(e, k.w, true)
			if in.branch(c.Eq(c.Resize(low, 128, k.signed), e)) {
				in.store(dst, in.mk(low))
				return Iface{}
			}
			return fail()
		case 'f':
			if x.e.sort == 64 {
				if x.signed {
					in.store(dst, in.mk(c.node(OSToF, FPSort, 0, x.e)))
				} else {
					in.store(dst, in.mk(c.node(OUToF, FPSort, 0, x.e)))
				}
				return Iface{}
			}
		case 'b':
			return fail()
		}
	case *FltStr:
		switch k.k {
		case 'f':
			in.store(dst, in.mk(x.e))
			return Iface{}
		case 's':
			in.store(dst, x)
			return Iface{}
		case 'b':
			return fail()
		case 'i':
			// yaml.v3 accepts floats for signed integers when resolved <= MaxInt64 (truncating)
			in.unsup("symbolic float into integer yaml")
		}
	case *BoolStr:
		switch k.k {
		case 'b':
			in.store(dst, in.mkb(x.e))
			return Iface{}
		case 's':
			in.store(dst, x)
			return Iface{}
		default:
			return fail()
		}
	default:
		if k.k == 's' {
			in.store(dst, v)
			return Iface{}
		}
	}
	in.unsup("symbolic yaml scalar %T into %s", v, t)
	return nil
}

// decodeAny decodes into interface{}; the second result is an error Iface or nil.
func (in *Interp) decodeAny(p Value, depth int) (Iface, Value) {
	if depth > 100 {
		in.unsup("yaml depth")
	}
	n := in.ynode(p)
	switch n.kind() {
	case yaml.AliasNode:
		return in.decodeAny(n.f("Alias"), depth+1)
	case yaml.DocumentNode:
		return in.decodeAny(n.content()[0], depth+1)
	case yaml.SequenceNode:
		c := n.content()
		s := make(Slice, len(c))
		for i, e := range c {
			v, err := in.decodeAny(e, depth+1)
			if err != nil {
				return Iface{}, err
			}
			s[i] = v
		}
		return Iface{tSlAny, s}, nil
	case yaml.MappingNode:
		c := n.content()
		allStr := true
		type kv struct{ k, v Iface }
		var l []kv
		for i := 0; i+1 < len(c); i += 2 {
			k, err := in.decodeAny(c[i], depth+1)
			if err != nil {
				return Iface{}, err
			}
			v, err := in.decodeAny(c[i+1], depth+1)
			if err != nil {
				return Iface{}, err
			}
			if k.t == nil || kindOf(k.t).k != 's' {
				allStr = false
			}
			if in.ynode(c[i]).f("Tag") == "!!merge" {
				in.unsup("yaml merge key")
			}
			l = append(l, kv{k, v})
		}
		m := newMap()
		for _, e := range l {
			if allStr {
				if _, dup := in.mapGet(m, tString, e.k.v); dup {
					return Iface{}, in.yamlErr(int(in.concInt(n.f("Line"), 64)), "mapping key already defined")
				}
				in.mapSet(m, tString, e.k.v, e.v)
			} else {
				in.mapSet(m, tSlAny.Elem(), e.k, e.v)
			}
		}
		if allStr {
			return Iface{tMapSA, m}, nil
		}
		return Iface{tMapAA, m}, nil
	case yaml.ScalarNode:
		v := n.f("Value")
		tag := n.str("Tag")
		if s, ok := v.(string); ok {
			nn := &yaml.Node{Kind: yaml.ScalarNode, Value: s, Tag: tag, Style: yaml.Style(in.concInt(n.f("Style"), 32)), Line: int(in.concInt(n.f("Line"), 64))}
			var x any
			if err := nn.Decode(&x); err != nil {
				return Iface{}, in.goYamlErr(err)
			}
			return in.fromNative(x), nil
		}
		if tag == "!!str" {
			return Iface{tString, v}, nil
		}
		switch x := v.(type) {
		case *NumStr:
			// yaml.v3: int when it fits int, int64, then uint64, else float
			e := in.c.Resize(x.e, 128, x.signed)
			low := in.c.Resize(e, 64, true)
			if in.branch(in.c.Eq(in.c.Resize(low, 128, true), e)) {
				return Iface{tInt, in.mk(low)}, nil
			}
			if in.branch(in.c.Eq(in.c.Resize(low, 128, false), e)) {
				return Iface{tUint64, in.mk(low)}, nil
			}
			in.unsup("yaml integer beyond 64 bits")
		case *FltStr:
			return Iface{tFloat64, in.mk(x.e)}, nil
		case *BoolStr:
			return Iface{tBool, in.mkb(x.e)}, nil
		}
		return Iface{tString, v}, nil
	}
	return Iface{}, nil
}

func addYAML(m map[string]intrinsic) {
	m[yamlPkg+".NewDecoder"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		t := in.namedType(yamlPkg, "Decoder")
		p := new(Value)
		s := zero(t).(Struct)
		s[0] = &Native{kind: "yamldec", v: &ydec{r: a[0].(Iface)}}
		*p = s
		return p
	}
	m["(*"+yamlPkg+".Decoder).KnownFields"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return nil }
	m["(*"+yamlPkg+".Decoder).Decode"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		d := (*ptrField(in.nilCheck(a[0]), 0)).(*Native).v.(*ydec)
		if d.d == nil {
			d.d = yaml.NewDecoder(strings.NewReader(in.readAll(d.r)))
		}
		var n yaml.Node
		if err := d.d.Decode(&n); err != nil {
			if err == io.EOF {
				return *in.global(in.prog.ImportedPackage("io").Var("EOF"))
			}
			return in.goYamlErr(err)
		}
		dst := a[1].(Iface)
		node := in.nodeFromNative(&n, map[*yaml.Node]*Value{})
		return in.decodeNode(node, deref(dst.t), in.nilCheck(dst.v))
	}
	m["(*"+yamlPkg+".Node).Decode"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		dst := a[1].(Iface)
		if dst.t == nil {
			in.unsup("Node.Decode(nil)")
		}
		return in.decodeNode(a[0], deref(dst.t), in.nilCheck(dst.v))
	}
	m[yamlPkg+".Unmarshal"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		b := mkStr([]Value(a[0].(Slice)))
		s := in.strPinOr(b)
		var n yaml.Node
		if err := yaml.Unmarshal([]byte(s), &n); err != nil {
			return in.goYamlErr(err)
		}
		if n.Kind == 0 {
			return Iface{}
		}
		dst := a[1].(Iface)
		node := in.nodeFromNative(&n, map[*yaml.Node]*Value{})
		return in.decodeNode(node, deref(dst.t), in.nilCheck(dst.v))
	}
}

type ydec struct {
	r Iface
	d *yaml.Decoder
}

var _ = math.MaxInt64
var _ = big.NewInt
