package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"hash/fnv"
	"io"
	"math"
	"math/big"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fallthru struct{}

func regexpQuote(s string) string { return regexp.QuoteMeta(s) }

func (in *Interp) namedType(pkg, name string) types.Type {
	k := pkg + "." + name
	if t, ok := in.typeReg[k]; ok {
		return t
	}
	p := in.prog.ImportedPackage(pkg)
	if p == nil {
		in.unsup("package %s not loaded", pkg)
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		in.unsup("type %s.%s not found", pkg, name)
	}
	in.typeReg[k] = o.Type()
	return o.Type()
}

func fieldIdx(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic("no field " + name)
}

func (in *Interp) newError(msg Value) Value {
	return in.callByName("errors", "New", []Value{msg})
}

// ---- native conversion of fully concrete values ----

func (in *Interp) toNative(v Value) (any, bool) {
	switch v := v.(type) {
	case bool, string, float64:
		return v, true
	case Iface:
		if v.t == nil {
			return nil, true
		}
		k := kindOf(v.t)
		switch k.k {
		case 'i':
			u, ok := v.v.(uint64)
			if !ok {
				return nil, false
			}
			if k.signed {
				return sext(u, k.w), true
			}
			return u, true
		case 'f', 'b', 's':
			return in.toNative(v.v)
		}
		switch u := v.t.Underlying().(type) {
		case *types.Slice:
			s := v.v.(Slice)
			if s == nil {
				return nil, true
			}
			out := make([]any, len(s))
			for i, x := range s {
				n, ok := in.toNative(in.box(u.Elem(), x))
				if !ok {
					return nil, false
				}
				out[i] = n
			}
			return out, true
		case *types.Map:
			m := v.v.(*Map)
			if m == nil {
				return nil, true
			}
			out := map[string]any{}
			for _, e := range m.ents {
				if e.dead {
					continue
				}
				kv, ok := in.toNative(in.box(u.Key(), e.k))
				if !ok {
					return nil, false
				}
				n, ok := in.toNative(in.box(u.Elem(), e.v))
				if !ok {
					return nil, false
				}
				out[fmt.Sprint(kv)] = n
			}
			return out, true
		case *types.Pointer:
			p := v.v.(*Value)
			if p == nil {
				return nil, true
			}
			return in.toNative(in.box(u.Elem(), *p))
		}
	}
	return nil, false
}

// box wraps a value of static type t as an interface value.
func (in *Interp) box(t types.Type, v Value) Iface {
	if i, ok := v.(Iface); ok {
		if types.IsInterface(t) {
			return i
		}
	}
	return Iface{t, v}
}

var (
	tString  = types.Typ[types.String]
	tInt     = types.Typ[types.Int]
	tInt64   = types.Typ[types.Int64]
	tUint64  = types.Typ[types.Uint64]
	tFloat64 = types.Typ[types.Float64]
	tBool    = types.Typ[types.Bool]
	tAny     = types.NewInterfaceType(nil, nil).Complete()
	tSlAny   = types.NewSlice(types.Universe.Lookup("any").Type())
	tMapSA   = types.NewMap(types.Typ[types.String], types.Universe.Lookup("any").Type())
	tMapAA   = types.NewMap(types.Universe.Lookup("any").Type(), types.Universe.Lookup("any").Type())
)

// fromNative converts a generic Go value to an engine interface value.
func (in *Interp) fromNative(x any) Iface {
	switch x := x.(type) {
	case nil:
		return Iface{}
	case symLeaf:
		return x.x
	case bool:
		return Iface{tBool, x}
	case string:
		return Iface{tString, x}
	case int:
		return Iface{tInt, uint64(x)}
	case int64:
		return Iface{tInt64, uint64(x)}
	case uint64:
		return Iface{tUint64, x}
	case float64:
		return Iface{tFloat64, x}
	case []any:
		s := make(Slice, len(x))
		for i, e := range x {
			s[i] = in.fromNative(e)
		}
		return Iface{tSlAny, s}
	case map[string]any:
		m := newMap()
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			in.mapSet(m, tString, k, in.fromNative(x[k]))
		}
		return Iface{tMapSA, m}
	case map[any]any:
		m := newMap()
		for k, v := range x {
			in.mapSet(m, tSlAny.Elem(), in.fromNative(k), in.fromNative(v))
		}
		return Iface{tMapAA, m}
	}
	in.unsup("fromNative %T", x)
	return Iface{}
}

// ---- formatting ----

func (in *Interp) callMethodStr(x Iface, name string) Value {
	f := in.lookupMethod(x.t, nil, name)
	return in.callFn(in.cur, f, []Value{x.v}, nil)
}

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
var stringerIface = types.NewInterfaceType([]*types.Func{types.NewFunc(0, nil, "String", types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false))}, nil).Complete()

func (in *Interp) fmtVal(verb byte, spec string, x Iface) Value {
	if verb == 'T' {
		if x.t == nil {
			return "<nil>"
		}
		return in.typeString(x.t)
	}
	if x.t == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		plain := !strings.ContainsAny(spec, "#")
		if plain {
			var s Value
			if in.implements(x.t, errIface) {
				if p, ok := x.v.(*Value); ok && p == nil {
					return "<nil>"
				}
				s = in.callMethodStr(x, "Error")
			} else if in.implements(x.t, stringerIface) {
				if p, ok := x.v.(*Value); ok && p == nil {
					return "<nil>"
				}
				s = in.callMethodStr(x, "String")
			}
			if s != nil {
				if verb == 'q' {
					return in.quote(s)
				}
				return s
			}
		}
	}
	if _, ok := x.v.(*Native); ok {
		return "?" + in.typeString(x.t) // internals of a modelled library value; only in message text
	}
	k := kindOf(x.t)
	switch k.k {
	case 's':
		switch verb {
		case 'q':
			return in.quote(x.v)
		case 'v', 's', 'w':
			if len(spec) > 2 {
				if strings.Contains(spec, "#") {
					return in.quote(x.v)
				}
				s, ok := x.v.(string)
				if !ok {
					s = in.concStr(x.v)
				}
				return fmt.Sprintf(spec[:len(spec)-1]+"s", s)
			}
			return x.v
		}
		return fmt.Sprintf(spec, in.concStr(x.v))
	case 'i':
		if u, ok := x.v.(uint64); ok {
			if k.signed {
				return fmt.Sprintf(fixw(spec), sext(u, k.w))
			}
			return fmt.Sprintf(fixw(spec), u)
		}
		e := x.v.(*E)
		if (verb == 'd' || verb == 'v') && len(spec) == 2 {
			return &NumStr{in.c.Resize(e, 64, k.signed), k.signed}
		}
		u := in.trickyInt(e)
		if k.signed {
			return fmt.Sprintf(spec, sext(u, k.w))
		}
		return fmt.Sprintf(spec, u)
	case 'f':
		if f, ok := x.v.(float64); ok {
			return fmt.Sprintf(fixw(spec), f)
		}
		if verb == 'v' && len(spec) == 2 && k.w == 64 {
			return &FltStr{x.v.(*E), 'g'}
		}
		return fmt.Sprintf(fixw(spec), in.trickyFloat(x.v.(*E)))
	case 'b':
		if b, ok := x.v.(bool); ok {
			return fmt.Sprintf(fixw(spec), b)
		}
		return &BoolStr{x.v.(*E)}
	}
	switch u := x.t.Underlying().(type) {
	case *types.Slice:
		if kindOf(u.Elem()).w == 8 && (verb == 's' || verb == 'q') {
			return mkStr([]Value(x.v.(Slice)))
		}
		var acc Value = "["
		for i, e := range x.v.(Slice) {
			if i > 0 {
				acc = in.catStr(acc, " ")
			}
			acc = in.catStr(acc, in.fmtVal(verb, spec, in.box(u.Elem(), e)))
		}
		return in.catStr(acc, "]")
	case *types.Map:
		m := x.v.(*Map)
		var acc Value = "map["
		type kv struct{ k, v Value }
		var l []kv
		if m != nil {
			for _, e := range m.ents {
				if !e.dead {
					l = append(l, kv{in.fmtVal(verb, spec, in.box(u.Key(), e.k)), in.fmtVal(verb, spec, in.box(u.Elem(), e.v))})
				}
			}
		}
		sort.SliceStable(l, func(i, j int) bool {
			a, ok1 := l[i].k.(string)
			b, ok2 := l[j].k.(string)
			return ok1 && ok2 && a < b
		})
		for i, e := range l {
			if i > 0 {
				acc = in.catStr(acc, " ")
			}
			acc = in.catStr(in.catStr(in.catStr(acc, e.k), ":"), e.v)
		}
		return in.catStr(acc, "]")
	case *types.Pointer:
		p, _ := x.v.(*Value)
		if p == nil {
			return "<nil>"
		}
		return "0xc000000000"
	case *types.Struct:
		var acc Value = "{"
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				acc = in.catStr(acc, " ")
			}
			acc = in.catStr(acc, in.fmtVal(verb, spec, in.box(u.Field(i).Type(), x.v.(Struct)[i])))
		}
		return in.catStr(acc, "}")
	}
	return "?" + in.typeString(x.t)
}

func fixw(spec string) string {
	if strings.HasSuffix(spec, "w") {
		return spec[:len(spec)-1] + "v"
	}
	return spec
}

func (in *Interp) quote(s Value) Value {
	if c, ok := s.(string); ok {
		return strconv.Quote(c)
	}
	return in.catStr(in.catStr("\"", s), "\"")
}

func (in *Interp) sprintf(format string, args Slice) (Value, []Iface) {
	var acc Value = ""
	var wrapped []Iface
	n := 0
	i := 0
	for i < len(format) {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			acc = in.catStr(acc, format[i:])
			break
		}
		acc = in.catStr(acc, format[i:i+j])
		i += j
		k := i + 1
		for k < len(format) && strings.IndexByte("+-# 0123456789.", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			acc = in.catStr(acc, "%!(NOVERB)")
			break
		}
		verb := format[k]
		spec := format[i : k+1]
		i = k + 1
		if verb == '%' {
			acc = in.catStr(acc, "%")
			continue
		}
		if n >= len(args) {
			acc = in.catStr(acc, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := args[n].(Iface)
		n++
		if verb == 'w' {
			wrapped = append(wrapped, a)
		}
		acc = in.catStr(acc, in.fmtVal(verb, spec, a))
	}
	if n < len(args) {
		acc = in.catStr(acc, "%!(EXTRA)")
	}
	return acc, wrapped
}

func argSlice(v Value) Slice {
	s, _ := v.(Slice)
	return s
}

func ptrField(p Value, i int) *Value { return &(*(p.(*Value))).(Struct)[i] }

// ---- big.Int model: field 0 holds *Native{kind:"big"} with *big.Int or *E(128) ----

func (in *Interp) bigGet(p Value) any {
	f := ptrField(in.nilCheck(p), 0)
	if n, ok := (*f).(*Native); ok {
		return n.v
	}
	return big.NewInt(0)
}
func (in *Interp) bigSet(p Value, v any) Value {
	if e, ok := v.(*E); ok && e.op == OConst {
		v = bigSigned(e.constVal().Big(), e.sort)
	}
	in.set(ptrField(in.nilCheck(p), 0), &Native{kind: "big", v: v})
	return p
}
func (in *Interp) bigE(v any) *E {
	switch v := v.(type) {
	case *E:
		return v
	case *big.Int:
		if v.BitLen() > 126 {
			in.unsup("big integer beyond 126 bits mixed with symbolic one")
		}
		return in.c.BigBV(v, 128)
	}
	panic("bigE")
}
func (in *Interp) newBig(v any) Value {
	t := in.namedType("math/big", "Int")
	p := new(Value)
	*p = zero(t)
	return in.bigSet(p, v)
}

func (in *Interp) bigCmp(a, b any) Value {
	x, ok1 := a.(*big.Int)
	y, ok2 := b.(*big.Int)
	if ok1 && ok2 {
		return uint64(x.Cmp(y))
	}
	if ok1 && x.BitLen() > 126 {
		return uint64(int64(x.Sign()))
	}
	if ok2 && y.BitLen() > 126 {
		return uint64(int64(-y.Sign()))
	}
	ea, eb := in.bigE(a), in.bigE(b)
	c := in.c
	return in.mk(c.Ite(c.Bin(OSLt, ea, eb), c.BV(^uint64(0), 64), c.Ite(c.Eq(ea, eb), c.BV(0, 64), c.BV(1, 64))))
}

func (in *Interp) strPinOr(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	return in.concStr(v)
}

func (in *Interp) natRegexp(p Value) *Native {
	n, ok := (*ptrField(in.nilCheck(p), 0)).(*Native)
	if !ok {
		in.unsup("regexp without native part")
	}
	return n
}

func (in *Interp) mkRegexp(v any) Value {
	t := in.namedType("regexp", "Regexp")
	p := new(Value)
	*p = zero(t)
	(*p).(Struct)[0] = &Native{kind: "regexp", v: v}
	return p
}

func (in *Interp) errorsAs(err Iface, target Iface) bool {
	if target.t == nil {
		in.rtPanic("errors: target cannot be nil")
	}
	tt := deref(target.t)
	for err.t != nil {
		match := false
		if it, ok := tt.Underlying().(*types.Interface); ok {
			match = in.implements(err.t, it)
			if match {
				in.store(target.v.(*Value), err)
				return true
			}
		} else if in.canon(err.t) == in.canon(tt) {
			in.store(target.v.(*Value), err.v)
			return true
		}
		if f := in.lookupMethod(err.t, nil, "As"); f != nil && f.Signature.Params().Len() == 1 {
			if in.truth(in.callFn(in.cur, f, []Value{err.v, target}, nil)) {
				return true
			}
		}
		f := in.lookupMethod(err.t, nil, "Unwrap")
		if f == nil {
			return false
		}
		r := in.callFn(in.cur, f, []Value{err.v}, nil)
		switch r := r.(type) {
		case Iface:
			err = r
		case Slice:
			for _, e := range r {
				if e.(Iface).t != nil && in.errorsAs(e.(Iface), target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func (in *Interp) errorsIs(err, target Iface) bool {
	for {
		if err.t == nil || target.t == nil {
			return err.t == target.t
		}
		if types.Comparable(target.t) && in.truth(in.eqVal(nil, err, target)) {
			return true
		}
		if f := in.lookupMethod(err.t, nil, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			if in.truth(in.callFn(in.cur, f, []Value{err.v, target}, nil)) {
				return true
			}
		}
		f := in.lookupMethod(err.t, nil, "Unwrap")
		if f == nil {
			return false
		}
		r := in.callFn(in.cur, f, []Value{err.v}, nil)
		switch r := r.(type) {
		case Iface:
			err = r
			if err.t == nil {
				return false
			}
		case Slice:
			for _, e := range r {
				if e.(Iface).t != nil && in.errorsIs(e.(Iface), target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// deepEqual is reflect.DeepEqual on engine values.
func (in *Interp) deepEqual(t types.Type, x, y Value, depth int) Value {
	if depth > 200 {
		in.unsup("deepEqual recursion")
	}
	switch xv := x.(type) {
	case Iface:
		yv := y.(Iface)
		if xv.t == nil || yv.t == nil {
			return xv.t == nil && yv.t == nil
		}
		if in.canon(xv.t) != in.canon(yv.t) {
			return false
		}
		return in.deepEqual(xv.t, xv.v, yv.v, depth+1)
	case *Value:
		yv := y.(*Value)
		if xv == yv {
			return true
		}
		if xv == nil || yv == nil {
			return false
		}
		return in.deepEqual(deref(t), *xv, *yv, depth+1)
	case Slice:
		yv := y.(Slice)
		if (xv == nil) != (yv == nil) || len(xv) != len(yv) {
			return false
		}
		var acc Value = true
		for i := range xv {
			acc = in.andV(acc, in.deepEqual(t.Underlying().(*types.Slice).Elem(), xv[i], yv[i], depth+1))
		}
		return acc
	case Array:
		yv := y.(Array)
		var acc Value = true
		for i := range xv {
			acc = in.andV(acc, in.deepEqual(t.Underlying().(*types.Array).Elem(), xv[i], yv[i], depth+1))
		}
		return acc
	case Struct:
		yv := y.(Struct)
		st := t.Underlying().(*types.Struct)
		var acc Value = true
		for i := range xv {
			acc = in.andV(acc, in.deepEqual(st.Field(i).Type(), xv[i], yv[i], depth+1))
			if acc == false {
				return false
			}
		}
		return acc
	case *Map:
		yv := y.(*Map)
		if xv == yv {
			return true
		}
		if (xv == nil) != (yv == nil) || xv.n != yv.n {
			return false
		}
		mt := t.Underlying().(*types.Map)
		var acc Value = true
		for _, e := range xv.ents {
			if e.dead {
				continue
			}
			v, ok := in.mapGet(yv, mt.Key(), e.k)
			if !ok {
				return false
			}
			acc = in.andV(acc, in.deepEqual(mt.Elem(), e.v, v, depth+1))
		}
		return acc
	case *Closure:
		return xv == nil && y.(*Closure) == nil
	}
	return in.eqVal(t, x, y)
}

// jsonEq decides whether two engine values marshal to the same JSON text.
func (in *Interp) jsonEq(a, b Iface) Value {
	na, nb := in.jsonNorm(a), in.jsonNorm(b)
	return in.jsonEqN(na, nb)
}

type jnull struct{}
type jobj struct {
	keys []string
	vals map[string]any
}

// jsonNorm: jnull | bool-ish Value | numeric Value boxed | string Value | []any | *jobj
type jnum struct {
	k kind
	v Value
}
type jstr struct{ v Value }
type jbool struct{ v Value }

func (in *Interp) jsonNorm(x Iface) any {
	if x.t == nil {
		return jnull{}
	}
	k := kindOf(x.t)
	switch k.k {
	case 'b':
		return jbool{x.v}
	case 's':
		return jstr{x.v}
	case 'i', 'f':
		return jnum{k, x.v}
	}
	switch u := x.t.Underlying().(type) {
	case *types.Slice:
		s := x.v.(Slice)
		if s == nil {
			return jnull{}
		}
		out := make([]any, len(s))
		for i, e := range s {
			out[i] = in.jsonNorm(in.box(u.Elem(), e))
		}
		return out
	case *types.Map:
		m := x.v.(*Map)
		if m == nil {
			return jnull{}
		}
		o := &jobj{vals: map[string]any{}}
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			kv := e.k
			if i, ok := kv.(Iface); ok {
				kv = i.v
			}
			s := in.strPinOr(kv)
			o.keys = append(o.keys, s)
			o.vals[s] = in.jsonNorm(in.box(u.Elem(), e.v))
		}
		sort.Strings(o.keys)
		return o
	case *types.Pointer:
		p := x.v.(*Value)
		if p == nil {
			return jnull{}
		}
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Name() == "OrderedMap" && n.TypeArgs().Len() == 2 {
			o := &jobj{vals: map[string]any{}}
			next := in.callFn(in.cur, in.lookupMethod(x.t, nil, "Oldest"), []Value{p}, nil).(*Value)
			for next != nil {
				pt := in.lookupMethod(x.t, nil, "Oldest").Signature.Results().At(0).Type()
				pair := (*next).(Struct)
				k := in.strPinOr(pair[0])
				o.keys = append(o.keys, k)
				o.vals[k] = in.jsonNorm(in.box(n.TypeArgs().At(1), pair[1]))
				next = in.callFn(in.cur, in.lookupMethod(pt, nil, "Next"), []Value{next}, nil).(*Value)
			}
			return o
		}
		return in.jsonNorm(in.box(u.Elem(), *p))
	case *types.Struct:
		if types.NewMethodSet(types.NewPointer(x.t)).Lookup(nil, "MarshalJSON") != nil {
			in.unsup("json of %s (custom)", x.t)
		}
		o := &jobj{vals: map[string]any{}}
		in.jsonFields(x.v.(Struct), u, o)
		return o
	}
	in.unsup("json of %s", x.t)
	return nil
}

func (in *Interp) jsonFields(s Struct, u *types.Struct, o *jobj) {
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		name, opts, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("json"), ",")
		if name == "-" || !f.Exported() && !f.Embedded() {
			continue
		}
		if st, ok := f.Type().Underlying().(*types.Struct); ok && f.Embedded() && name == "" {
			in.jsonFields(s[i].(Struct), st, o)
			continue
		}
		if name == "" {
			name = f.Name()
		}
		if strings.Contains(opts, "omitempty") && in.jsonEmpty(f.Type(), s[i]) {
			continue
		}
		if _, dup := o.vals[name]; dup {
			in.unsup("json field %s twice", name)
		}
		o.keys = append(o.keys, name)
		if n, ok := f.Type().(*types.Named); ok && n.Obj().Name() == "Number" && n.Obj().Pkg().Path() == "encoding/json" {
			o.vals[name] = jtext{s[i]}
			continue
		}
		o.vals[name] = in.jsonNorm(in.box(f.Type(), s[i]))
	}
}

// jtext is a number given by its text.
type jtext struct{ v Value }

func (in *Interp) jsonEmpty(t types.Type, v Value) bool {
	switch x := v.(type) {
	case *Value:
		return x == nil
	case Iface:
		return x.t == nil
	case Slice:
		return len(x) == 0
	case *Map:
		return x == nil || x.n == 0
	}
	switch k := kindOf(t); k.k {
	case 'b', 's', 'i', 'f':
		return in.truth(in.eqVal(t, v, zero(t)))
	}
	return false
}

// jsonText writes the text of a tree whose leaves are all concrete.
func jsonText(n any) ([]byte, bool) {
	switch x := n.(type) {
	case jnull:
		return []byte("null"), true
	case jbool:
		b, ok := x.v.(bool)
		return []byte(strconv.FormatBool(b)), ok
	case jstr:
		s, ok := x.v.(string)
		b, _ := json.Marshal(s)
		return b, ok
	case jtext:
		s, ok := x.v.(string)
		return []byte(s), ok
	case jnum:
		switch v := x.v.(type) {
		case uint64:
			if x.k.signed {
				return []byte(strconv.FormatInt(sext(v, x.k.w), 10)), true
			}
			return []byte(strconv.FormatUint(v, 10)), true
		case float64:
			b, err := json.Marshal(v)
			return b, err == nil
		}
		return nil, false
	case []any:
		out := []byte("[")
		for i, e := range x {
			if i > 0 {
				out = append(out, ',')
			}
			b, ok := jsonText(e)
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return append(out, ']'), true
	case *jobj:
		out := []byte("{")
		for i, k := range x.keys {
			if i > 0 {
				out = append(out, ',')
			}
			kb, _ := json.Marshal(k)
			b, ok := jsonText(x.vals[k])
			if !ok {
				return nil, false
			}
			out = append(append(append(out, kb...), ':'), b...)
		}
		return append(out, '}'), true
	}
	return nil, false
}

func (in *Interp) jsonEqN(a, b any) Value {
	switch x := a.(type) {
	case jnull:
		_, ok := b.(jnull)
		return ok
	case jbool:
		y, ok := b.(jbool)
		if !ok {
			return false
		}
		return in.eqVal(tBool, x.v, y.v)
	case jstr:
		y, ok := b.(jstr)
		if !ok {
			return false
		}
		return in.eqStr(x.v, y.v)
	case jnum:
		y, ok := b.(jnum)
		if !ok {
			return false
		}
		if x.k.k == 'i' && y.k.k == 'i' {
			return in.mkb(in.c.Eq(in.c.Resize(in.intE(x.v, x.k.w), 128, x.k.signed), in.c.Resize(in.intE(y.v, y.k.w), 128, y.k.signed)))
		}
		if x.k.k == 'f' && y.k.k == 'f' {
			// text equality of floats: same bits (0 and -0 print differently)
			fx, fy := in.fltE(x.v), in.fltE(y.v)
			return in.mkb(in.c.And(in.c.Bin(OFEq, fx, fy), in.c.Eq(in.negZero(fx), in.negZero(fy))))
		}
		if x.k.k == 'f' {
			x, y = y, x
		}
		// int vs float: texts agree when the float is integral, equal and below 1e21
		f := in.fltE(y.v)
		ie := in.intE(x.v, x.k.w)
		var fi *E
		if x.k.signed {
			fi = in.c.node(OSToF, FPSort, 0, in.c.Resize(ie, 64, true))
		} else {
			fi = in.c.node(OUToF, FPSort, 0, in.c.Resize(ie, 64, false))
		}
		return in.mkb(in.c.And(in.c.Bin(OFEq, fi, f), in.c.Not(in.negZero(f))))
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		var acc Value = true
		for i := range x {
			acc = in.andV(acc, in.jsonEqN(x[i], y[i]))
		}
		return acc
	case *jobj:
		y, ok := b.(*jobj)
		if !ok || len(x.keys) != len(y.keys) {
			return false
		}
		var acc Value = true
		for i, k := range x.keys {
			if y.keys[i] != k {
				return false
			}
			acc = in.andV(acc, in.jsonEqN(x.vals[k], y.vals[k]))
		}
		return acc
	}
	panic("jsonEqN")
}

func (in *Interp) negZero(f *E) *E {
	if f.op == OConst {
		v := math.Float64frombits(f.val)
		return in.c.Bool(v == 0 && math.Signbit(v))
	}
	// 1/x is -inf exactly for negative zero
	return in.c.And(in.c.Bin(OFEq, f, in.c.F(0)), in.c.Bin(OFLt, in.c.Bin(OFDiv, in.c.F(1), f), in.c.F(0)))
}

func (in *Interp) jsonHasBad(x any) Value {
	var acc Value = false
	switch v := x.(type) {
	case jnum:
		if v.k.k == 'f' {
			f := in.fltE(v.v)
			return in.mkb(in.c.Or(in.c.Un(OFIsNaN, f), in.c.Un(OFIsInf, f)))
		}
	case []any:
		for _, e := range v {
			acc = in.orV(acc, in.jsonHasBad(e))
		}
	case *jobj:
		for _, k := range v.keys {
			acc = in.orV(acc, in.jsonHasBad(v.vals[k]))
		}
	}
	return acc
}

type jsonBytes struct{ n any }

type hashEnt struct {
	n any
	e *E
}

func (in *Interp) hashOf(n any) Value {
	p := in.p
	h := in.newVar("hash", 64)
	c := in.c
	hs, _ := in.scratch["hashes"].([]hashEnt)
	if in.scratch["hashpath"] != p {
		hs = nil
		in.scratch["hashpath"] = p
	}
	for _, o := range hs {
		eq := in.boolE(in.jsonEqN(o.n, n))
		in.assume(c.Eq(c.Eq(o.e, h), eq))
	}
	in.scratch["hashes"] = append(hs, hashEnt{n, h})
	return h
}

func (in *Interp) errIfaceFromGo(err error) Value {
	return in.newError(err.Error())
}

func isConcAll(args []Value) bool {
	for _, a := range args {
		if isSym(a) {
			return false
		}
	}
	return true
}

func nilErr() Iface { return Iface{} }

// readAll reads an engine io.Reader completely.
func (in *Interp) readAll(r Iface) string {
	t := in.typeString(r.t)
	switch t {
	case "*strings.Reader":
		st := (*(r.v.(*Value))).(Struct)
		s := in.strPinOr(st[0])
		i := int(st[1].(uint64))
		in.set(&st[1], uint64(len(s)))
		if i > len(s) {
			i = len(s)
		}
		return s[i:]
	case "*os.File":
		f := in.file(r.v)
		s := f.data[f.pos:]
		old := f.pos
		in.logUndo(func() { f.pos = old })
		f.pos = len(f.data)
		return s
	}
	rd := in.lookupMethod(r.t, nil, "Read")
	if rd == nil {
		in.unsup("readAll of %s", t)
	}
	var out []byte
	eof := *in.global(in.prog.ImportedPackage("io").Var("EOF"))
	for n := 0; n < 100000; n++ {
		buf := make(Slice, 512)
		for i := range buf {
			buf[i] = uint64(0)
		}
		res := in.callFn(in.cur, rd, []Value{r.v, buf}, nil).(Tuple)
		k := int(in.concInt(res[0], 64))
		for _, b := range buf[:k] {
			out = append(out, byte(in.concInt(b, 8)))
		}
		e := res[1].(Iface)
		if e.t != nil {
			if in.truth(in.eqVal(nil, e, eof)) {
				return string(out)
			}
			panic(&unsupported{"reader error"})
		}
	}
	in.unsup("reader does not end")
	return ""
}

type vfile struct {
	name string
	data string
	pos  int
}

func (in *Interp) file(p Value) *vfile {
	n := (*ptrField(in.nilCheck(p), 0))
	nn, ok := n.(*Native)
	if !ok {
		in.unsup("os.File without native part")
	}
	return nn.v.(*vfile)
}

func (in *Interp) openFile(name string) Value {
	files, _ := in.scratch["vfs"].(map[string]string)
	d, ok := files[filepath.Clean(name)]
	if !ok {
		return Tuple{(*Value)(nil), in.newError("open " + name + ": no such file or directory")}
	}
	t := in.namedType("os", "File")
	p := new(Value)
	s := zero(t).(Struct)
	s[0] = &Native{kind: "file", v: &vfile{name: name, data: d}}
	*p = s
	return Tuple{p, Iface{}}
}

func (in *Interp) builderGet(p Value) Value {
	f := ptrField(in.nilCheck(p), 0)
	if q, ok := (*f).(*Value); ok && q == nil {
		return ""
	}
	return *f
}

func nativeIntr() map[string]intrinsic {
	m := map[string]intrinsic{}
	// fmt
	m["fmt.Sprintf"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := in.sprintf(in.strPinOr(a[0]), argSlice(a[1]))
		return s
	}
	sprint := func(in *Interp, args Slice, sp bool) Value {
		var acc Value = ""
		prevStr := true
		for i, x := range args {
			xi := x.(Iface)
			isStr := xi.t != nil && kindOf(xi.t).k == 's'
			if i > 0 && (sp || (!isStr && !prevStr)) {
				acc = in.catStr(acc, " ")
			}
			acc = in.catStr(acc, in.fmtVal('v', "%v", xi))
			prevStr = isStr
		}
		return acc
	}
	m["fmt.Sprint"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return sprint(in, argSlice(a[0]), false)
	}
	m["fmt.Sprintln"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.catStr(sprint(in, argSlice(a[0]), true), "\n")
	}
	m["fmt.Errorf"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		s, w := in.sprintf(in.strPinOr(a[0]), argSlice(a[1]))
		if len(w) == 0 || (len(w) == 1 && w[0].t == nil) {
			e := in.newError(s)
			return e
		}
		if len(w) == 1 {
			t := in.namedType("fmt", "wrapError")
			p := new(Value)
			*p = Struct{s, w[0]}
			return Iface{types.NewPointer(t), p}
		}
		t := in.namedType("fmt", "wrapErrors")
		p := new(Value)
		var errs Slice
		for _, x := range w {
			errs = append(errs, x)
		}
		*p = Struct{s, errs}
		return Iface{types.NewPointer(t), p}
	}
	for _, n := range []string{"fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "fmt.Printf", "fmt.Println", "fmt.Print"} {
		m[n] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return Tuple{uint64(0), Iface{}} }
	}
	// errors
	m["errors.As"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if a[0].(Iface).t == nil {
			return false
		}
		return in.errorsAs(a[0].(Iface), a[1].(Iface))
	}
	m["errors.Is"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.errorsIs(a[0].(Iface), a[1].(Iface))
	}
	// reflect
	m["reflect.DeepEqual"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.deepEqual(nil, a[0], a[1], 0)
	}
	m["reflect.ValueOf"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		t := in.namedType("reflect", "Value")
		s := zero(t).(Struct)
		s[0] = &Native{kind: "rvalue", v: a[0]}
		return s
	}
	m["(reflect.Value).Pointer"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := a[0].(Struct)[0].(*Native).v.(Iface)
		switch v := n.v.(type) {
		case *Closure:
			if v == nil {
				return uint64(0)
			}
			ids, _ := in.scratch["fnids"].(map[any]uint64)
			if ids == nil {
				ids = map[any]uint64{}
				in.scratch["fnids"] = ids
			}
			var k any = v.fn
			if v.fn == nil {
				k = v
			}
			if _, ok := ids[k]; !ok {
				ids[k] = uint64(len(ids)+1) * 16
			}
			return ids[k]
		}
		in.unsup("reflect.Value.Pointer of %T", n.v)
		return nil
	}
	m["(reflect.Value).UnsafePointer"] = m["(reflect.Value).Pointer"]
	m["(reflect.Value).Kind"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := a[0].(Struct)[0].(*Native).v.(Iface)
		return uint64(reflectKind(n.t))
	}
	m["(reflect.Value).IsNil"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := a[0].(Struct)[0].(*Native).v.(Iface)
		switch v := n.v.(type) {
		case *Value:
			return v == nil
		case *Map:
			return v == nil
		case Slice:
			return v == nil
		case *Closure:
			return v == nil
		}
		in.unsup("IsNil of %T", n.v)
		return nil
	}
	// context
	m["context.WithValue"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if a[0].(Iface).t == nil {
			panic(&targetPanic{v: Iface{tString, "cannot create context from nil parent"}})
		}
		t := in.namedType("context", "valueCtx")
		p := new(Value)
		*p = Struct{a[0], a[1], a[2]}
		return Iface{types.NewPointer(t), p}
	}
	// strings.Builder
	m["(*strings.Builder).String"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.builderGet(a[0]) }
	m["(*strings.Builder).Len"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.lenStr(in.builderGet(a[0])) }
	m["(*strings.Builder).Cap"] = m["(*strings.Builder).Len"]
	m["(*strings.Builder).Grow"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return nil }
	m["(*strings.Builder).Reset"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.set(ptrField(in.nilCheck(a[0]), 0), "")
		return nil
	}
	add := func(in *Interp, p Value, s Value) {
		v := in.catStr(in.builderGet(p), s)
		in.set(ptrField(in.nilCheck(p), 0), v)
	}
	m["(*strings.Builder).WriteString"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		add(in, a[0], a[1])
		return Tuple{in.lenOrZero(a[1]), Iface{}}
	}
	m["(*strings.Builder).Write"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		add(in, a[0], mkStr([]Value(a[1].(Slice))))
		return Tuple{uint64(len(a[1].(Slice))), Iface{}}
	}
	m["(*strings.Builder).WriteByte"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		add(in, a[0], mkStr([]Value{a[1]}))
		return Iface{}
	}
	m["(*strings.Builder).WriteRune"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if e, ok := a[1].(*E); ok {
			if in.branch(in.c.Bin(OULt, e, in.c.BV(0x80, 32))) {
				add(in, a[0], mkStr([]Value{in.mk(in.c.Resize(e, 8, false))}))
				return Tuple{uint64(1), Iface{}}
			}
		}
		s := string(rune(int32(in.concInt(a[1], 32))))
		add(in, a[0], s)
		return Tuple{uint64(len(s)), Iface{}}
	}
	// bytealg
	idxByte := func(in *Interp, bs []Value, b Value) Value {
		for i, x := range bs {
			if in.truth(in.mkb(in.c.Eq(in.intE(x, 8), in.intE(b, 8)))) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	strB := func(in *Interp, v Value) []Value {
		if _, ok := strLen(v); !ok {
			v = in.concStr(v)
		}
		return bytesOf(v)
	}
	m["internal/bytealg.IndexByteString"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if u, ok := a[1].(uint64); ok {
				return uint64(strings.IndexByte(s, byte(u)))
			}
		}
		return idxByte(in, strB(in, a[0]), a[1])
	}
	m["internal/bytealg.IndexByte"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return idxByte(in, a[0].(Slice), a[1])
	}
	m["internal/bytealg.LastIndexByteString"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		bs := strB(in, a[0])
		for i := len(bs) - 1; i >= 0; i-- {
			if in.truth(in.mkb(in.c.Eq(in.intE(bs[i], 8), in.intE(a[1], 8)))) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	m["internal/bytealg.LastIndexByte"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		bs := a[0].(Slice)
		for i := len(bs) - 1; i >= 0; i-- {
			if in.truth(in.mkb(in.c.Eq(in.intE(bs[i], 8), in.intE(a[1], 8)))) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	count := func(in *Interp, bs []Value, b Value) Value {
		n := uint64(0)
		for _, x := range bs {
			if in.truth(in.mkb(in.c.Eq(in.intE(x, 8), in.intE(b, 8)))) {
				n++
			}
		}
		return n
	}
	m["internal/bytealg.CountString"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return count(in, strB(in, a[0]), a[1])
	}
	m["internal/bytealg.Count"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return count(in, a[0].(Slice), a[1])
	}
	index := func(in *Interp, x, y []Value) Value {
		for i := 0; i+len(y) <= len(x); i++ {
			acc := in.c.tt
			for j := range y {
				acc = in.c.And(acc, in.c.Eq(in.intE(x[i+j], 8), in.intE(y[j], 8)))
			}
			if in.truth(in.mkb(acc)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	indexStr := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(string); ok {
			if y, ok := a[1].(string); ok {
				return uint64(strings.Index(x, y))
			}
		}
		return index(in, strB(in, a[0]), strB(in, a[1]))
	}
	// cutting a text that has symbolic parts at a place known from its concrete structure
	m["strings.Cut"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		h, ok := a[0].(*Cat)
		if !ok || len(h.parts) == 0 {
			if a0, a1 := a[0], a[1]; a0 == a1 {
				if _, ok := a0.(*NumStr); ok {
					return Tuple{"", "", true}
				}
			}
			return fallthru{}
		}
		h0, ok := h.parts[0].(string)
		if !ok {
			return fallthru{}
		}
		rest := func(acc Value, l []Value) Value {
			for _, x := range l {
				acc = in.catStr(acc, x)
			}
			return acc
		}
		switch n := a[1].(type) {
		case string:
			if i := strings.Index(h0, n); i >= 0 {
				return Tuple{h0[:i], rest(h0[i+len(n):], h.parts[1:]), true}
			}
		case *Cat:
			n0, ok := n.parts[0].(string)
			k := len(n.parts)
			if !ok || k < 2 || len(h.parts) < k {
				return fallthru{}
			}
			i := strings.Index(h0, n0)
			if i < 0 || i != len(h0)-len(n0) {
				return fallthru{}
			}
			for j := 1; j < k-1; j++ {
				if h.parts[j] != n.parts[j] {
					return fallthru{}
				}
			}
			x, ok1 := h.parts[k-1].(string)
			y, ok2 := n.parts[k-1].(string)
			switch {
			case ok1 && ok2 && strings.HasPrefix(x, y):
				return Tuple{h0[:i], rest(x[len(y):], h.parts[k:]), true}
			case !ok1 && !ok2 && h.parts[k-1] == n.parts[k-1]:
				return Tuple{h0[:i], rest("", h.parts[k:]), true}
			}
		}
		return fallthru{}
	}
	m["internal/bytealg.IndexString"] = indexStr
	m["strings.Index"] = indexStr
	m["internal/bytealg.Index"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return index(in, a[0].(Slice), a[1].(Slice))
	}
	m["internal/bytealg.Equal"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.eqStr(mkStr(a[0].(Slice)), mkStr(a[1].(Slice)))
	}
	m["bytes.Equal"] = m["internal/bytealg.Equal"]
	m["internal/bytealg.Compare"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := mkStr(a[0].(Slice)), mkStr(a[1].(Slice))
		if in.truth(in.eqStr(x, y)) {
			return uint64(0)
		}
		if in.truth(in.strLess(x, y)) {
			return ^uint64(0)
		}
		return uint64(1)
	}
	m["internal/bytealg.CompareString"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if in.truth(in.eqStr(a[0], a[1])) {
			return uint64(0)
		}
		if in.truth(in.strLess(a[0], a[1])) {
			return ^uint64(0)
		}
		return uint64(1)
	}
	m["strings.Compare"] = m["internal/bytealg.CompareString"]
	m["cmp.Compare"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if k := kindOf(fn.Signature.Params().At(0).Type()); k.k == 's' {
			return m["strings.Compare"](in, fr, fn, a)
		}
		return fallthru{}
	}
	m["internal/bytealg.MakeNoZero"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(in.concInt(a[0], 64))
		s := make(Slice, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	}
	m["internal/stringslite.Clone"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] }
	m["strings.Clone"] = m["internal/stringslite.Clone"]
	m["strings.Join"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		var acc Value = ""
		for i, x := range a[0].(Slice) {
			if i > 0 {
				acc = in.catStr(acc, a[1])
			}
			acc = in.catStr(acc, x)
		}
		return acc
	}
	// fast paths for concrete strings
	fast := func(name string, f func(a []Value) Value) {
		m[name] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if !isConcAll(a) {
				return fallthru{}
			}
			return f(a)
		}
	}
	fast("strings.ReplaceAll", func(a []Value) Value {
		return strings.ReplaceAll(a[0].(string), a[1].(string), a[2].(string))
	})
	fast("strings.ToLower", func(a []Value) Value { return strings.ToLower(a[0].(string)) })
	fast("strings.ToUpper", func(a []Value) Value { return strings.ToUpper(a[0].(string)) })
	fast("strings.TrimSpace", func(a []Value) Value { return strings.TrimSpace(a[0].(string)) })
	fast("strings.EqualFold", func(a []Value) Value { return strings.EqualFold(a[0].(string), a[1].(string)) })
	fast("path/filepath.Clean", func(a []Value) Value { return filepath.Clean(a[0].(string)) })
	fast("path/filepath.Base", func(a []Value) Value { return filepath.Base(a[0].(string)) })
	fast("path/filepath.Dir", func(a []Value) Value { return filepath.Dir(a[0].(string)) })
	fast("path/filepath.Ext", func(a []Value) Value { return filepath.Ext(a[0].(string)) })
	fast("path/filepath.IsAbs", func(a []Value) Value { return filepath.IsAbs(a[0].(string)) })
	m["path/filepath.Join"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		var l []string
		for _, x := range a[0].(Slice) {
			s, ok := x.(string)
			if !ok {
				return fallthru{}
			}
			l = append(l, s)
		}
		return filepath.Join(l...)
	}
	// opaque-string aware prefix/suffix/contains
	presuf := func(name string, conc func(s, p string) bool) {
		m[name] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			s, ok1 := a[0].(string)
			p, ok2 := a[1].(string)
			if ok1 && ok2 {
				return conc(s, p)
			}
			if ok2 {
				if r, ok := in.partsPredicate(name, a[0], p); ok {
					return r
				}
			}
			if _, ok := strLen(a[0]); !ok {
				a[0] = in.concStr(a[0])
			}
			if _, ok := strLen(a[1]); !ok {
				a[1] = in.concStr(a[1])
			}
			return fallthru{}
		}
	}
	presuf("strings.HasPrefix", strings.HasPrefix)
	presuf("strings.HasSuffix", strings.HasSuffix)
	presuf("strings.Contains", strings.Contains)
	// strconv
	m["strconv.Itoa"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if u, ok := a[0].(uint64); ok {
			return strconv.Itoa(int(u))
		}
		return &NumStr{a[0].(*E), true}
	}
	m["strconv.FormatInt"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if u, ok := a[0].(uint64); ok {
			return strconv.FormatInt(int64(u), int(in.concInt(a[1], 64)))
		}
		if b := int(int64(in.concInt(a[1], 64))); b != 10 {
			return strconv.FormatInt(int64(in.trickyInt(a[0].(*E))), b)
		}
		return &NumStr{a[0].(*E), true}
	}
	m["strconv.FormatUint"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if u, ok := a[0].(uint64); ok {
			return strconv.FormatUint(u, int(in.concInt(a[1], 64)))
		}
		if b := int(int64(in.concInt(a[1], 64))); b != 10 {
			return strconv.FormatUint(in.trickyInt(a[0].(*E)), b)
		}
		return &NumStr{a[0].(*E), false}
	}
	m["strconv.FormatBool"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if b, ok := a[0].(bool); ok {
			return strconv.FormatBool(b)
		}
		return &BoolStr{a[0].(*E)}
	}
	m["strconv.FormatFloat"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		verb, prec, size := byte(in.concInt(a[1], 8)), int(int64(in.concInt(a[2], 64))), int(in.concInt(a[3], 64))
		if f, ok := a[0].(float64); ok {
			return strconv.FormatFloat(f, verb, prec, size)
		}
		// Only the shortest text that reads back as the same number can stand for the number itself.
		if prec == -1 && size == 64 && strings.IndexByte("efgEG", verb) >= 0 {
			return &FltStr{a[0].(*E), verb}
		}
		return strconv.FormatFloat(in.trickyFloat(a[0].(*E)), verb, prec, size)
	}
	m["strconv.ParseFloat"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		switch s := a[0].(type) {
		case string:
			f, err := strconv.ParseFloat(s, int(in.concInt(a[1], 64)))
			if err != nil {
				return Tuple{f, in.errIfaceFromGo(err)}
			}
			return Tuple{f, Iface{}}
		case *FltStr:
			if in.concInt(a[1], 64) == 64 {
				return Tuple{in.mk(s.e), Iface{}}
			}
		case *NumStr:
			if in.concInt(a[1], 64) != 64 {
				break
			}
			if s.e.sort == 64 {
				if s.signed {
					return Tuple{in.mk(in.c.node(OSToF, FPSort, 0, s.e)), Iface{}}
				}
				return Tuple{in.mk(in.c.node(OUToF, FPSort, 0, s.e)), Iface{}}
			}
			if n := in.c.Resize(s.e, 64, true); s.e.sort > 64 && in.branch(in.c.Eq(in.c.Resize(n, s.e.sort, true), s.e)) {
				return Tuple{in.mk(in.c.node(OSToF, FPSort, 0, n)), Iface{}}
			}
		}
		a[0] = in.concStr(a[0])
		return m["strconv.ParseFloat"](in, fr, fn, a)
	}
	m["strconv.ParseInt"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			i, err := strconv.ParseInt(s, int(in.concInt(a[1], 64)), int(in.concInt(a[2], 64)))
			if err != nil {
				return Tuple{uint64(i), in.errIfaceFromGo(err)}
			}
			return Tuple{uint64(i), Iface{}}
		}
		if n, ok := a[0].(*NumStr); ok && a[2] == uint64(64) && (a[1] == uint64(10) || a[1] == uint64(0)) {
			e := in.c.Resize(n.e, 128, n.signed)
			lo := in.c.Eq(in.c.Resize(in.c.Resize(e, 64, true), 128, true), e)
			if in.branch(lo) {
				return Tuple{in.mk(in.c.Resize(e, 64, true)), Iface{}}
			}
			return Tuple{uint64(math.MaxInt64), in.newError("strconv.ParseInt: value out of range")}
		}
		if _, ok := a[0].(*SStr); ok {
			return fallthru{}
		}
		a[0] = in.concStr(a[0])
		return m["strconv.ParseInt"](in, fr, fn, a)
	}
	m["strconv.ParseUint"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			i, err := strconv.ParseUint(s, int(in.concInt(a[1], 64)), int(in.concInt(a[2], 64)))
			if err != nil {
				return Tuple{uint64(i), in.errIfaceFromGo(err)}
			}
			return Tuple{uint64(i), Iface{}}
		}
		if n, ok := a[0].(*NumStr); ok && a[2] == uint64(64) && (a[1] == uint64(10) || a[1] == uint64(0)) {
			e := in.c.Resize(n.e, 128, n.signed)
			lo := in.c.Eq(in.c.Resize(in.c.Resize(e, 64, false), 128, false), e)
			if in.branch(lo) {
				return Tuple{in.mk(in.c.Resize(e, 64, false)), Iface{}}
			}
			return Tuple{uint64(math.MaxUint64), in.newError("strconv.ParseUint: value out of range")}
		}
		if _, ok := a[0].(*SStr); ok {
			return fallthru{}
		}
		a[0] = in.concStr(a[0])
		return m["strconv.ParseUint"](in, fr, fn, a)
	}
	m["strconv.Atoi"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return m["strconv.ParseInt"](in, fr, fn, []Value{a[0], uint64(10), uint64(64)})
	}
	m["strconv.Quote"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.quote(a[0]) }
	m["unicode/utf8.RuneCountInString"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		switch s := a[0].(type) {
		case string:
			return uint64(runeCount(s))
		case *Atom:
			return s.rn
		case *NumStr, *BoolStr:
			return in.lenStr(s)
		case *SStr:
			return fallthru{}
		}
		return uint64(runeCount(in.concStr(a[0])))
	}
	// math
	m["math.Float64bits"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return math.Float64bits(f)
		}
		e := a[0].(*E)
		if e.op == OFromBits {
			return in.mk(e.args[0])
		}
		return math.Float64bits(in.concFloat(e))
	}
	m["math.Float64frombits"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if u, ok := a[0].(uint64); ok {
			return math.Float64frombits(u)
		}
		return in.mk(in.c.node(OFromBits, FPSort, 0, a[0].(*E)))
	}
	m["math.IsNaN"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.mkb(in.c.Un(OFIsNaN, in.fltE(a[0])))
	}
	m["math.IsInf"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		f := in.fltE(a[0])
		s := int64(in.concInt(a[1], 64))
		inf := in.c.Un(OFIsInf, f)
		switch {
		case s > 0:
			return in.mkb(in.c.And(inf, in.c.Bin(OFLt, in.c.F(0), f)))
		case s < 0:
			return in.mkb(in.c.And(inf, in.c.Bin(OFLt, f, in.c.F(0))))
		}
		return in.mkb(inf)
	}
	m["math.Abs"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.mk(in.c.Un(OFAbs, in.fltE(a[0])))
	}
	rnd := func(k uint64) intrinsic {
		return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.mk(in.c.node(OFRound, FPSort, k, in.fltE(a[0])))
		}
	}
	m["math.Trunc"], m["math.Floor"], m["math.Ceil"] = rnd(0), rnd(1), rnd(2)
	m["math.Mod"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if !ok1 {
			x = in.concFloat(a[0])
		}
		if !ok2 {
			y = in.concFloat(a[1])
		}
		return math.Mod(x, y)
	}
	// sync
	nop := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return nil }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock", "runtime.SetFinalizer", "runtime.KeepAlive", "internal/godebug.(*Setting).IncNonDefault"} {
		m[n] = nop
	}
	m["(*sync.Mutex).TryLock"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return true }
	m["(*sync.Once).Do"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		f := ptrField(in.nilCheck(a[0]), 0)
		if _, ok := (*f).(*Native); ok {
			return nil
		}
		in.set(f, &Native{kind: "once"})
		in.callClosure(fr, a[1].(*Closure), nil)
		return nil
	}
	m["(*internal/godebug.Setting).Value"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return "" }
	m["(*internal/godebug.Setting).IncNonDefault"] = nop
	// sync/atomic
	m["sync/atomic.AddInt64"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := in.nilCheck(a[0])
		v := in.binop(tokADD, nil, kind{'i', 64, true}, kind{'i', 64, true}, *p, a[1])
		in.set(p, v)
		return v
	}
	m["sync/atomic.AddUint64"] = m["sync/atomic.AddInt64"]
	m["sync/atomic.AddInt32"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := in.nilCheck(a[0])
		v := in.binop(tokADD, nil, kind{'i', 32, true}, kind{'i', 32, true}, *p, a[1])
		in.set(p, v)
		return v
	}
	m["sync/atomic.AddUint32"] = m["sync/atomic.AddInt32"]
	load := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return *in.nilCheck(a[0]) }
	store := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.set(in.nilCheck(a[0]), a[1])
		return nil
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Pointer", "Uintptr"} {
		m["sync/atomic.Load"+t] = load
		m["sync/atomic.Store"+t] = store
		m["sync/atomic.CompareAndSwap"+t] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			p := in.nilCheck(a[0])
			if in.truth(in.eqVal(nil, *p, a[1])) {
				in.set(p, a[2])
				return true
			}
			return false
		}
		m["sync/atomic.Swap"+t] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			p := in.nilCheck(a[0])
			o := *p
			in.set(p, a[1])
			return o
		}
	}
	for _, t := range []string{"Value", "Pointer[T]"} {
		_ = t
	}
	m["time.initLocal"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return nil } // Local = UTC
	m["syscall.Getenv"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return Tuple{"", false} }
	// big.Float (as an integer-valued intermediate only): field 0 holds *Native{kind:"bigfloat"}
	m["math/big.NewFloat"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := new(Value)
		*p = zero(in.namedType("math/big", "Float"))
		in.set(ptrField(p, 0), &Native{kind: "bigfloat", v: a[0]})
		if e, ok := a[0].(*E); ok && in.branch(in.c.node(OFIsNaN, 0, 0, e)) {
			panic(&targetPanic{v: Iface{tString, "NewFloat(NaN)"}})
		}
		return p
	}
	m["(*math/big.Float).SetFloat64"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.set(ptrField(in.nilCheck(a[0]), 0), &Native{kind: "bigfloat", v: a[1]})
		return a[0]
	}
	m["(*math/big.Float).Int"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n, ok := (*ptrField(in.nilCheck(a[0]), 0)).(*Native)
		if !ok {
			in.unsup("big.Float.Int on an unmodelled value")
		}
		z, _ := a[1].(*Value)
		if z == nil {
			z = in.newBig(big.NewInt(0)).(*Value)
		}
		e, sym := n.v.(*E)
		c := in.c
		if sym {
			if in.branch(c.And(c.Bin(OFLe, c.F(-9223372036854775808.0), e), c.Bin(OFLt, e, c.F(9223372036854775808.0)))) {
				r := c.Resize(c.node(OFToS, 64, 0, e), 128, true)
				return Tuple{in.bigSet(z, r), uint64(0)}
			}
			if in.branch(c.And(c.Bin(OFLt, c.F(-0x1p126), e), c.Bin(OFLt, e, c.F(0x1p126)))) {
				return Tuple{in.bigSet(z, c.node(OFToS, 128, 0, e)), uint64(0)}
			}
		}
		f := in.concFloat(n.v)
		if math.IsInf(f, 0) {
			return Tuple{(*Value)(nil), uint64(0)}
		}
		b, _ := big.NewFloat(f).Int(nil)
		return Tuple{in.bigSet(z, b), uint64(0)}
	}
	// big.Int
	bi := func(n string, f intrinsic) { m["(*math/big.Int)."+n] = f }
	m["math/big.NewInt"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if u, ok := a[0].(uint64); ok {
			return in.newBig(big.NewInt(int64(u)))
		}
		return in.newBig(in.c.Resize(a[0].(*E), 128, true))
	}
	bi("SetInt64", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if u, ok := a[1].(uint64); ok {
			return in.bigSet(a[0], big.NewInt(int64(u)))
		}
		return in.bigSet(a[0], in.c.Resize(a[1].(*E), 128, true))
	})
	bi("SetUint64", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if u, ok := a[1].(uint64); ok {
			return in.bigSet(a[0], new(big.Int).SetUint64(u))
		}
		return in.bigSet(a[0], in.c.Resize(a[1].(*E), 128, false))
	})
	bi("SetString", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if n, ok := a[1].(*NumStr); ok && (a[2] == uint64(10) || a[2] == uint64(0)) {
			return Tuple{in.bigSet(a[0], in.c.Resize(n.e, 128, n.signed)), true}
		}
		switch a[1].(type) {
		case *FltStr, *BoolStr, *PatStr:
			// A number written with a point or an exponent is not the text of an integer; what
			// strconv writes for a whole number is.
			if f, ok := a[1].(*FltStr); !ok || f.verb == 0 {
				return Tuple{(*Value)(nil), false}
			}
			a[1] = in.concStr(a[1])
		}
		s := in.strPinOr(a[1])
		b, ok := new(big.Int).SetString(s, int(int64(in.concInt(a[2], 64))))
		if !ok {
			return Tuple{(*Value)(nil), false}
		}
		return Tuple{in.bigSet(a[0], b), true}
	})
	bi("Set", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.bigSet(a[0], in.bigGet(a[1]))
	})
	bi("Cmp", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.bigCmp(in.bigGet(a[0]), in.bigGet(a[1]))
	})
	bi("Sign", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.bigCmp(in.bigGet(a[0]), big.NewInt(0))
	})
	bin := func(name string, g func(z, x, y *big.Int) *big.Int, op Op) {
		bi(name, func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			x, y := in.bigGet(a[1]), in.bigGet(a[2])
			bx, ok1 := x.(*big.Int)
			by, ok2 := y.(*big.Int)
			if ok1 && ok2 {
				if by.Sign() == 0 && (op == OSDiv || op == OSRem) {
					panic(&targetPanic{v: Iface{tString, "division by zero"}})
				}
				return in.bigSet(a[0], g(new(big.Int), bx, by))
			}
			ex, ey := in.bigE(x), in.bigE(y)
			if op == OSDiv || op == OSRem {
				if in.truth(in.mkb(in.c.Eq(ey, in.c.BigBV(big.NewInt(0), 128)))) {
					panic(&targetPanic{v: Iface{tString, "division by zero"}})
				}
			}
			r := in.c.Bin(op, ex, ey)
			z := in.c.BigBV(big.NewInt(0), 128)
			neg := func(e *E) *E { return in.c.Bin(OSLt, e, z) }
			if name == "Mod" { // Euclidean
				r = in.c.Ite(neg(r), in.c.Ite(neg(ey), in.c.Bin(OSub, r, ey), in.c.Bin(OAdd, r, ey)), r)
			}
			if name == "Div" {
				rem := in.c.Bin(OSRem, ex, ey)
				one := in.c.BigBV(big.NewInt(1), 128)
				r = in.c.Ite(neg(rem), in.c.Ite(neg(ey), in.c.Bin(OAdd, r, one), in.c.Bin(OSub, r, one)), r)
			}
			return in.bigSet(a[0], r)
		})
	}
	bin("Add", (*big.Int).Add, OAdd)
	bin("Sub", (*big.Int).Sub, OSub)
	bin("Mul", (*big.Int).Mul, OMul)
	bin("Rem", (*big.Int).Rem, OSRem)
	bin("Quo", (*big.Int).Quo, OSDiv)
	bin("Mod", (*big.Int).Mod, OSRem)
	bin("Div", (*big.Int).Div, OSDiv)
	bi("Neg", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x := in.bigGet(a[1])
		if b, ok := x.(*big.Int); ok {
			return in.bigSet(a[0], new(big.Int).Neg(b))
		}
		return in.bigSet(a[0], in.c.Un(ONeg, x.(*E)))
	})
	bi("Abs", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x := in.bigGet(a[1])
		if b, ok := x.(*big.Int); ok {
			return in.bigSet(a[0], new(big.Int).Abs(b))
		}
		e := x.(*E)
		return in.bigSet(a[0], in.c.Ite(in.c.Bin(OSLt, e, in.c.BigBV(big.NewInt(0), 128)), in.c.Un(ONeg, e), e))
	})
	bi("String", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if a[0].(*Value) == nil {
			return "<nil>"
		}
		x := in.bigGet(a[0])
		if b, ok := x.(*big.Int); ok {
			return b.String()
		}
		return &NumStr{x.(*E), true}
	})
	bi("IsInt64", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x := in.bigGet(a[0])
		if b, ok := x.(*big.Int); ok {
			return b.IsInt64()
		}
		e := x.(*E)
		return in.mkb(in.c.Eq(in.c.Resize(in.c.Resize(e, 64, true), 128, true), e))
	})
	bi("IsUint64", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x := in.bigGet(a[0])
		if b, ok := x.(*big.Int); ok {
			return b.IsUint64()
		}
		e := x.(*E)
		return in.mkb(in.c.Eq(in.c.Resize(in.c.Resize(e, 64, false), 128, false), e))
	})
	bi("Int64", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x := in.bigGet(a[0])
		if b, ok := x.(*big.Int); ok {
			return uint64(b.Int64())
		}
		return in.mk(in.c.Resize(x.(*E), 64, true))
	})
	bi("Uint64", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x := in.bigGet(a[0])
		if b, ok := x.(*big.Int); ok {
			return b.Uint64()
		}
		return in.mk(in.c.Resize(x.(*E), 64, true))
	})
	// big.Float: only concrete
	// regexp
	comp := func(in *Interp, src Value) (Value, error) {
		if p, ok := src.(*PatStr); ok {
			return in.mkRegexp(in.p.pats[p.id]), nil
		}
		s := in.strPinOr(src)
		re, err := regexp.Compile(s)
		if err != nil {
			return nil, err
		}
		return in.mkRegexp(re), nil
	}
	m["regexp.Compile"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		r, err := comp(in, a[0])
		if err != nil {
			return Tuple{(*Value)(nil), in.errIfaceFromGo(err)}
		}
		return Tuple{r, Iface{}}
	}
	m["regexp.MustCompile"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		r, err := comp(in, a[0])
		if err != nil {
			panic(&targetPanic{v: Iface{tString, err.Error()}})
		}
		return r
	}
	match := func(in *Interp, p Value, s Value) Value {
		n := in.natRegexp(p)
		switch re := n.v.(type) {
		case *patState:
			return in.patMatch(re, s)
		case *regexp.Regexp:
			if c, ok := s.(string); ok {
				return re.MatchString(c)
			}
			if ss, ok := s.(*SStr); ok {
				return in.symMatch(re.String(), ss)
			}
			return re.MatchString(in.concStr(s))
		}
		panic("match")
	}
	m["(*regexp.Regexp).MatchString"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return match(in, a[0], a[1]) }
	m["(*regexp.Regexp).Match"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return match(in, a[0], mkStr(a[1].(Slice)))
	}
	m["(*regexp.Regexp).String"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		switch re := in.natRegexp(a[0]).v.(type) {
		case *patState:
			return &PatStr{re.id}
		case *regexp.Regexp:
			return re.String()
		}
		return nil
	}
	m["(*regexp.Regexp).FindString"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		re, ok := in.natRegexp(a[0]).v.(*regexp.Regexp)
		if !ok {
			in.unsup("FindString on opaque pattern")
		}
		return re.FindString(in.strPinOr(a[1]))
	}
	m["(*regexp.Regexp).FindStringIndex"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		re, ok := in.natRegexp(a[0]).v.(*regexp.Regexp)
		if !ok {
			in.unsup("FindStringIndex on opaque pattern")
		}
		loc := re.FindStringIndex(in.strPinOr(a[1]))
		if loc == nil {
			return Slice(nil)
		}
		return Slice{uint64(loc[0]), uint64(loc[1])}
	}
	m["regexp.QuoteMeta"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return regexp.QuoteMeta(in.strPinOr(a[0]))
	}
	// json
	m["encoding/json.Marshal"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x := a[0].(Iface)
		n := in.jsonNorm(x)
		if bad := in.jsonHasBad(n); bad != false {
			if in.truth(bad) {
				return Tuple{Slice(nil), in.newError("json: unsupported value")}
			}
		}
		if nat, ok := in.toNative(x); ok {
			b, err := json.Marshal(nat)
			if err != nil {
				return Tuple{Slice(nil), in.errIfaceFromGo(err)}
			}
			out := make(Slice, len(b))
			for i, c := range b {
				out[i] = uint64(c)
			}
			in.scratchJSON(out, n)
			return Tuple{out, Iface{}}
		}
		if b, ok := jsonText(n); ok {
			out := make(Slice, len(b))
			for i, c := range b {
				out[i] = uint64(c)
			}
			in.scratchJSON(out, n)
			return Tuple{out, Iface{}}
		}
		return Tuple{Slice{&Native{kind: "json", v: n}}, Iface{}}
	}
	m["encoding/json.Unmarshal"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		dst := a[1].(Iface)
		if s := a[0].(Slice); len(s) == 1 {
			if n, ok := s[0].(*Native); ok && n.kind == "json" {
				return in.jsonInto(in.jsonTreeOf(n.v), deref(dst.t), dst.v.(*Value))
			}
		}
		b := in.jsonMark(mkStr(a[0].(Slice)))
		var raw json.RawMessage
		if err := json.Unmarshal([]byte(b), &raw); err != nil {
			return in.errIfaceFromGo(err)
		}
		return in.jsonInto(in.jsonTree(raw), deref(dst.t), dst.v.(*Value))
	}
	m["github.com/zeebo/xxh3.Hash"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(Slice)
		if len(s) == 1 {
			if n, ok := s[0].(*Native); ok && n.kind == "json" {
				return in.hashOf(n.v)
			}
		}
		if n, ok := in.jsonOf(s); ok && in.p != nil {
			return in.hashOf(n)
		}
		str := mkStr(s)
		c, ok := str.(string)
		if !ok {
			c = in.concStr(str)
		}
		h := fnv.New64a()
		io.WriteString(h, c)
		return h.Sum64()
	}
	m["github.com/zeebo/xxh3.HashString"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		h := fnv.New64a()
		io.WriteString(h, in.strPinOr(a[0]))
		return h.Sum64()
	}
	// io/os
	m["os.OpenFile"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.openFile(in.strPinOr(a[0])) }
	m["os.Open"] = m["os.OpenFile"]
	m["os.ReadFile"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		t := in.openFile(in.strPinOr(a[0])).(Tuple)
		if t[1].(Iface).t != nil {
			return Tuple{Slice(nil), t[1]}
		}
		return Tuple{Slice(bytesOf(in.file(t[0]).data)), Iface{}}
	}
	m["os.Getwd"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return Tuple{"/vfs", Iface{}} }
	m["(*os.File).Close"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return Iface{} }
	m["(*os.File).Name"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.file(a[0]).name }
	m["(*os.File).Read"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		f := in.file(a[0])
		b := a[1].(Slice)
		if len(b) == 0 {
			return Tuple{uint64(0), Iface{}}
		}
		if f.pos >= len(f.data) {
			return Tuple{uint64(0), *in.global(in.prog.ImportedPackage("io").Var("EOF"))}
		}
		n := 0
		old := f.pos
		in.logUndo(func() { f.pos = old })
		for n < len(b) && f.pos < len(f.data) {
			in.set(&b[n], uint64(f.data[f.pos]))
			n++
			f.pos++
		}
		return Tuple{uint64(n), Iface{}}
	}
	m["(*os.File).Seek"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		f := in.file(a[0])
		off := int(int64(in.concInt(a[1], 64)))
		old := f.pos
		in.logUndo(func() { f.pos = old })
		switch in.concInt(a[2], 64) {
		case 0:
			f.pos = off
		case 1:
			f.pos += off
		default:
			f.pos = len(f.data) + off
		}
		return Tuple{uint64(f.pos), Iface{}}
	}
	m["io.ReadAll"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		s := in.readAll(a[0].(Iface))
		b := Slice(bytesOf(s))
		if b == nil {
			b = Slice{}
		}
		return Tuple{b, Iface{}}
	}
	m["encoding/json.NewDecoder"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		t := in.namedType("encoding/json", "Decoder")
		p := new(Value)
		s := zero(t).(Struct)
		s[0] = &Native{kind: "jsondec", v: json.NewDecoder(strings.NewReader(in.jsonMark(in.readAll(a[0].(Iface)))))}
		*p = s
		return p
	}
	m["(*encoding/json.Decoder).Decode"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		d := (*ptrField(a[0], 0)).(*Native).v.(*json.Decoder)
		var raw json.RawMessage
		if err := d.Decode(&raw); err != nil {
			if err == io.EOF {
				return *in.global(in.prog.ImportedPackage("io").Var("EOF"))
			}
			return in.errIfaceFromGo(err)
		}
		dst := a[1].(Iface)
		return in.jsonInto(in.jsonTree(raw), deref(dst.t), dst.v.(*Value))
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit"} {
		nn := n
		m[n] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			panic(&targetPanic{v: Iface{tString, "process exit: " + nn}})
		}
	}
	for _, n := range []string{"log.Print", "log.Printf", "log.Println"} {
		m[n] = nop
	}
	addYAML(m)
	addHarness(m)
	return m
}

func (in *Interp) lenOrZero(v Value) Value {
	if n, ok := strLen(v); ok {
		return uint64(n)
	}
	return uint64(0)
}

type jsonKey struct{ p *Value }

func (in *Interp) scratchJSON(s Slice, n any) {
	if len(s) == 0 || in.p == nil {
		return
	}
	m, _ := in.scratch["json"].(map[*Value]any)
	if m == nil || in.scratch["jsonpath"] != in.p {
		m = map[*Value]any{}
		in.scratch["json"] = m
		in.scratch["jsonpath"] = in.p
	}
	m[&s[0]] = n
}
func (in *Interp) jsonOf(s Slice) (any, bool) {
	if len(s) == 0 || in.scratch["jsonpath"] != in.p {
		return nil, false
	}
	m, _ := in.scratch["json"].(map[*Value]any)
	n, ok := m[&s[0]]
	return n, ok
}

// jObj is a JSON object in the order of its text.
type jObj struct {
	k []string
	v []any
}

// symLeaf is a symbolic value in a JSON text.
type symLeaf struct{ x Iface }

// jsonMark renders text with symbolic parts as JSON with a marked string in the place of every
// symbolic number or boolean.
func (in *Interp) jsonMark(v Value) string {
	if c, ok := v.(*Cat); ok {
		var sb strings.Builder
		for _, p := range c.parts {
			if s, ok := p.(string); ok {
				sb.WriteString(s)
				continue
			}
			if _, ok := p.(*SStr); ok {
				sb.WriteString(in.concStr(p))
				continue
			}
			in.p.places = append(in.p.places, p)
			sb.WriteString("__SYM" + strconv.Itoa(len(in.p.places)-1) + "__")
		}
		v = sb.String()
	}
	s := in.concStr(v)
	if in.p == nil || !strings.Contains(s, "__SYM") {
		return s
	}
	var sb strings.Builder
	quoted := false
	for i := 0; i < len(s); i++ {
		switch {
		case quoted && s[i] == '\\' && i+1 < len(s):
			sb.WriteByte(s[i])
			i++
		case s[i] == '"':
			quoted = !quoted
		case !quoted && strings.HasPrefix(s[i:], "__SYM"):
			if l := placeRe.FindStringSubmatchIndex(s[i:]); l != nil && l[0] == 0 {
				n, _ := strconv.Atoi(s[i+l[2] : i+l[3]])
				switch in.p.places[n].(type) {
				case *NumStr, *BoolStr:
					sb.WriteString("\"\ue000" + s[i+l[2]:i+l[3]] + "\"")
					i += l[1] - 1
					continue
				}
				in.unsup("symbolic text in JSON")
			}
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

// jsonLeaf gives a JSON string its symbolic value.
func (in *Interp) jsonLeaf(s string) any {
	if t, ok := strings.CutPrefix(s, "\ue000"); ok && in.p != nil {
		n, err := strconv.Atoi(t)
		if err != nil || n >= len(in.p.places) {
			return s
		}
		switch v := in.p.places[n].(type) {
		case *NumStr:
			t := tUint64
			if v.signed {
				t = tInt64
			}
			return symLeaf{Iface{t, in.mk(in.c.Resize(v.e, 64, v.signed))}}
		case *BoolStr:
			return symLeaf{Iface{tBool, in.mkb(v.e)}}
		}
	}
	if v := in.placeVal(s); v != any(s) {
		return symLeaf{Iface{tString, v}}
	}
	return s
}

// jsonTree reads valid JSON text.
func (in *Interp) jsonTree(raw []byte) any {
	d := json.NewDecoder(strings.NewReader(string(raw)))
	d.UseNumber()
	var read func() any
	read = func() any {
		t, _ := d.Token()
		switch t {
		case json.Delim('{'):
			o := &jObj{}
			for d.More() {
				k, _ := d.Token()
				o.k = append(o.k, k.(string))
				o.v = append(o.v, read())
			}
			d.Token()
			return o
		case json.Delim('['):
			l := []any{}
			for d.More() {
				l = append(l, read())
			}
			d.Token()
			return l
		}
		if s, ok := t.(string); ok {
			return in.jsonLeaf(s)
		}
		return t
	}
	return read()
}

// jsonTreeOf reads JSON text with symbolic parts that was written from a normalised value.
func (in *Interp) jsonTreeOf(n any) any {
	switch x := n.(type) {
	case jnull:
		return nil
	case jbool:
		if b, ok := x.v.(bool); ok {
			return b
		}
		return symLeaf{Iface{tBool, x.v}}
	case jstr:
		if s, ok := x.v.(string); ok {
			return s
		}
		return symLeaf{Iface{tString, x.v}}
	case jtext:
		switch s := x.v.(type) {
		case string:
			return json.Number(s)
		case *NumStr:
			if s.e.sort == 64 {
				return in.jsonTreeOf(jnum{kind{k: 'i', w: 64, signed: s.signed}, in.mk(s.e)})
			}
		case *FltStr:
			return symLeaf{Iface{tFloat64, in.mk(s.e)}}
		}
	case jnum:
		if b, ok := jsonText(n); ok {
			return json.Number(b)
		}
		if x.k.k == 'f' && x.k.w == 64 {
			return symLeaf{Iface{tFloat64, x.v}}
		}
		if x.k.k == 'i' && x.k.w == 64 {
			if x.k.signed {
				return symLeaf{Iface{tInt64, x.v}}
			}
			return symLeaf{Iface{tUint64, x.v}}
		}
	case []any:
		l := make([]any, len(x))
		for i, e := range x {
			l[i] = in.jsonTreeOf(e)
		}
		return l
	case *jobj:
		o := &jObj{}
		for _, k := range x.keys {
			o.k = append(o.k, k)
			o.v = append(o.v, in.jsonTreeOf(x.vals[k]))
		}
		return o
	}
	in.unsup("symbolic part of JSON")
	return nil
}

// jsonNative is what decoding into an empty interface yields.
func (in *Interp) jsonNative(x any) any {
	switch x := x.(type) {
	case *jObj:
		m := map[string]any{}
		for i, k := range x.k {
			m[k] = in.jsonNative(x.v[i])
		}
		return m
	case []any:
		l := make([]any, len(x))
		for i, e := range x {
			l[i] = in.jsonNative(e)
		}
		return l
	case json.Number:
		f, _ := x.Float64()
		return f
	case symLeaf:
		if k := kindOf(x.x.t); k.k == 'i' {
			return symLeaf{Iface{tFloat64, in.jsonFloat(x)}}
		}
	}
	return x
}

// jsonFloat is a symbolic number as a float.
func (in *Interp) jsonFloat(x symLeaf) Value {
	k := kindOf(x.x.t)
	if k.k != 'i' {
		return x.x.v
	}
	op := OUToF
	if k.signed {
		op = OSToF
	}
	return in.mk(in.c.node(op, FPSort, 0, x.x.v.(*E)))
}

// jsonInto stores decoded JSON into a target of type t.
func (in *Interp) jsonInto(x any, t types.Type, dst *Value) Value {
	if f, ok := x.(json.Number); ok {
		if n, named := t.(*types.Named); named && n.Obj().Name() == "Number" && n.Obj().Pkg().Path() == "encoding/json" {
			in.store(dst, string(f))
			return Iface{}
		}
		v, _ := f.Float64()
		x = v
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		in.store(dst, in.fromNative(in.jsonNative(x)))
		return Iface{}
	case *types.Map:
		if x == nil {
			in.store(dst, (*Map)(nil))
			return Iface{}
		}
		if o, ok := x.(*jObj); ok && kindOf(u.Key()).k == 's' {
			m := newMap()
			var err Value = Iface{}
			for i, k := range o.k {
				p := new(Value)
				*p = zero(u.Elem())
				if e := in.jsonInto(o.v[i], u.Elem(), p); e.(Iface).t != nil {
					err = e
				}
				in.mapSet(m, u.Key(), k, *p)
			}
			in.store(dst, m)
			return err
		}
		return in.newError("json: cannot unmarshal into Go value of type " + in.typeString(t))
	case *types.Slice:
		if x == nil {
			in.store(dst, Slice(nil))
			return Iface{}
		}
		if l, ok := x.([]any); ok {
			s := make(Slice, len(l))
			var err Value = Iface{}
			for i := range l {
				s[i] = zero(u.Elem())
				if e := in.jsonInto(l[i], u.Elem(), &s[i]); e.(Iface).t != nil {
					err = e
				}
			}
			in.store(dst, s)
			return err
		}
		return in.newError("json: cannot unmarshal into Go value of type " + in.typeString(t))
	case *types.Pointer:
		if x == nil {
			in.store(dst, (*Value)(nil))
			return Iface{}
		}
		p := new(Value)
		*p = zero(u.Elem())
		e := in.jsonInto(x, u.Elem(), p)
		in.store(dst, p)
		return e
	case *types.Struct:
		// the JSON schema types: hand over to the structure decoder
		return in.jsonStruct(x, t, u, dst)
	case *types.Basic:
		switch v := x.(type) {
		case symLeaf:
			from, to := kindOf(v.x.t), kindOf(t)
			if from.k == 'i' && to.k == 'f' && to.w == 64 {
				in.store(dst, in.jsonFloat(v))
				return Iface{}
			}
			if n, ok := t.(*types.Named); ok && n.Obj().Name() == "Number" && from.k == 'i' {
				in.store(dst, &NumStr{v.x.v.(*E), from.signed})
				return Iface{}
			}
			if from.k != to.k || from.w != to.w || from.signed != to.signed {
				in.unsup("symbolic json into %s", t)
			}
			in.store(dst, v.x.v)
			return Iface{}
		case string:
			if kindOf(t).k == 's' {
				in.store(dst, v)
				return Iface{}
			}
		case bool:
			if kindOf(t).k == 'b' {
				in.store(dst, v)
				return Iface{}
			}
		case float64:
			switch k := kindOf(t); k.k {
			case 'f':
				in.store(dst, v)
				return Iface{}
			case 'i':
				in.store(dst, uint64(int64(v))&mask(k.w))
				return Iface{}
			case 's': // json.Number
				in.store(dst, strconv.FormatFloat(v, 'f', -1, 64))
				return Iface{}
			}
		case nil:
			return Iface{}
		}
		return in.newError("json: cannot unmarshal into Go value of type " + in.typeString(t))
	}
	in.unsup("json into %s", t)
	return nil
}

func (in *Interp) jsonStruct(x any, t types.Type, u *types.Struct, dst *Value) Value {
	if x == nil {
		return Iface{}
	}
	if types.NewMethodSet(types.NewPointer(t)).Lookup(nil, "UnmarshalJSON") != nil {
		o, ok := x.(*jObj)
		n, named := t.(*types.Named)
		if !named || n.Obj().Name() != "OrderedMap" || n.TypeArgs().Len() != 2 || kindOf(n.TypeArgs().At(0)).k != 's' {
			in.unsup("json into %s (custom)", t)
		}
		if !ok {
			return in.newError("json: malformed object")
		}
		pt := types.NewPointer(t)
		in.callFn(in.cur, in.lookupMethod(pt, n.Obj().Pkg(), "initialize"), []Value{dst, uint64(0)}, nil)
		for i, k := range o.k {
			p := new(Value)
			*p = zero(n.TypeArgs().At(1))
			if e := in.jsonInto(o.v[i], n.TypeArgs().At(1), p); e.(Iface).t != nil {
				return e
			}
			in.callFn(in.cur, in.lookupMethod(pt, nil, "Set"), []Value{dst, k, *p}, nil)
		}
		return Iface{}
	}
	o, ok := x.(*jObj)
	m := map[string]any{}
	if ok {
		for i, k := range o.k {
			m[k] = o.v[i]
		}
	} else {
		return in.newError("json: cannot unmarshal value into Go value of type " + in.typeString(t))
	}
	s := (*dst).(Struct)
	for i := 0; i < u.NumFields(); i++ {
		tag := reflect.StructTag(u.Tag(i)).Get("json")
		name, _, _ := strings.Cut(tag, ",")
		if name == "-" {
			continue
		}
		if u.Field(i).Embedded() && name == "" {
			ft := u.Field(i).Type()
			if st, ok := ft.Underlying().(*types.Struct); ok {
				if e := in.jsonStruct(x, ft, st, &s[i]); e.(Iface).t != nil {
					return e
				}
				continue
			}
			in.unsup("json embedded %s", ft)
		}
		if name == "" {
			name = u.Field(i).Name()
		}
		v, ok := m[name]
		if !ok {
			continue
		}
		if e := in.jsonInto(v, u.Field(i).Type(), &s[i]); e.(Iface).t != nil {
			return e
		}
	}
	return Iface{}
}

func reflectKind(t types.Type) reflect.Kind {
	if t == nil {
		return reflect.Invalid
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
			types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.String: reflect.String}
		return m[u.Kind()]
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Struct:
		return reflect.Struct
	case *types.Signature:
		return reflect.Func
	case *types.Array:
		return reflect.Array
	}
	return reflect.Invalid
}

// partsPredicate decides prefix/suffix/contains on opaque renderings when the text allows it.
func (in *Interp) partsPredicate(name string, s Value, p string) (Value, bool) {
	if p == "" {
		return true, true
	}
	switch s.(type) {
	case *NumStr:
		digits := true
		for _, r := range p {
			if !(r >= '0' && r <= '9' || r == '-') {
				digits = false
			}
		}
		if !digits {
			return false, true
		}
	case *PatStr:
		return false, true
	case *Atom:
		if !opaqueText(p) {
			return false, true
		}
	}
	parts := catParts(s)
	if len(parts) == 0 {
		return false, true
	}
	switch name {
	case "strings.HasPrefix":
		if x, ok := parts[0].(string); ok && len(x) >= len(p) {
			return strings.HasPrefix(x, p), true
		}
	case "strings.HasSuffix":
		if x, ok := parts[len(parts)-1].(string); ok && len(x) >= len(p) {
			return strings.HasSuffix(x, p), true
		}
	case "strings.Contains":
		for _, q := range parts {
			if x, ok := q.(string); ok && strings.Contains(x, p) {
				return true, true
			}
		}
	}
	return nil, false
}
