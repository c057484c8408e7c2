package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	bool | uint64 | float64 | string            concrete scalars (ints masked to width)
//	*E                                          symbolic bool / int / float
//	*SStr, *Atom, *Cat                          symbolic strings
//	*Value                                      pointer (nil = nil pointer)
//	Struct, Array, Slice, *Map, Iface, *Closure, Tuple, *Native, *Iter
type Value = any

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(in *Interp, args []Value) Value
	name   string
}

// Native is an opaque engine-side object (regexp, native reader, ...).
type Native struct {
	kind string
	v    any
}

type mapEnt struct {
	k, v Value
	dead bool
}

type Map struct {
	ents  []*mapEnt
	index map[any]*mapEnt // concrete keys
	nsym  int             // number of symbolic-key entries ever
	n     int
}

// SStr is a string of concrete length whose bytes may be symbolic.
type SStr struct{ b []Value }

// Atom is an opaque string: id identifies its content, n is its byte length, rn its rune count.
type Atom struct {
	id, n, rn *E
	name      string
	bytes     map[int]*E // bytes the code has looked at
}

// Cat is a string made of parts: string, *Atom, *SStr, NumStr.
type Cat struct{ parts []Value }

// NumStr is the decimal rendering of a symbolic integer.
type NumStr struct {
	e      *E // BV64 or BV128
	signed bool
}

// FltStr is the rendering of a symbolic float; BoolStr of a bool.
type FltStr struct {
	e    *E
	verb byte // the form of strconv.FormatFloat, or 0 for a text that always has a point or an exponent
}
type BoolStr struct{ e *E }

// PatStr is the source text of an opaque regular expression.
type PatStr struct{ id int }

type kind struct {
	k      uint8 // 'b' bool 'i' int 'f' float 's' string 'o' other
	w      int
	signed bool
}

func kindOf(t types.Type) kind {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return kind{k: 'o'}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return kind{k: 'b'}
	case types.Int, types.Int64, types.UntypedInt:
		return kind{'i', 64, true}
	case types.Int8:
		return kind{'i', 8, true}
	case types.Int16:
		return kind{'i', 16, true}
	case types.Int32, types.UntypedRune:
		return kind{'i', 32, true}
	case types.Uint, types.Uint64, types.Uintptr:
		return kind{'i', 64, false}
	case types.Uint8:
		return kind{'i', 8, false}
	case types.Uint16:
		return kind{'i', 16, false}
	case types.Uint32:
		return kind{'i', 32, false}
	case types.Float32:
		return kind{'f', 32, true}
	case types.Float64, types.UntypedFloat:
		return kind{'f', 64, true}
	case types.String, types.UntypedString:
		return kind{k: 's'}
	}
	return kind{k: 'o'}
}

func zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch kindOf(t).k {
		case 'b':
			return false
		case 'i':
			return uint64(0)
		case 'f':
			return float64(0)
		case 's':
			return ""
		}
		if t.Kind() == types.UnsafePointer || t.Kind() == types.UntypedNil {
			return (*Value)(nil)
		}
		return uint64(0)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return (*Native)(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, t.Len())
		if t.Len() > 0 {
			z := zero(t.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	}
	panic(fmt.Sprintf("zero: %v %T", t, t))
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				n[i] = copyVal(x)
			default:
				n[i] = x
			}
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				n[i] = copyVal(x)
			default:
				n[i] = x
			}
		}
		return n
	}
	return v
}

func isSym(v Value) bool {
	switch v.(type) {
	case *E, *SStr, *Atom, *Cat, *NumStr, *FltStr, *BoolStr, *PatStr:
		return true
	}
	return false
}

type pairKey struct{ a, b any }

type nilKey struct{}

// hashKey returns a comparable Go value identifying concrete v, ok=false when v has symbolic parts.
func (in *Interp) hashKey(v Value) (any, bool) {
	switch v := v.(type) {
	case bool, uint64, string, *Value, *Map, *Closure, *Native:
		return v, true
	case float64:
		if v == 0 {
			v = 0
		}
		if v != v {
			return nil, false
		}
		return v, true
	case Iface:
		if v.t == nil {
			return nilKey{}, true
		}
		if !types.Comparable(v.t) {
			in.rtPanic("hash of unhashable type " + in.typeString(v.t))
		}
		k, ok := in.hashKey(v.v)
		if !ok {
			return nil, false
		}
		return pairKey{in.canon(v.t), k}, true
	case Struct:
		var acc any = len(v)
		for _, x := range v {
			k, ok := in.hashKey(x)
			if !ok {
				return nil, false
			}
			acc = pairKey{acc, k}
		}
		return acc, true
	case Array:
		return in.hashKey(Struct(v))
	}
	return nil, false
}

// eqVal compares two values of static type t (interfaces dynamically); the result is bool or *E.
func (in *Interp) eqVal(t types.Type, x, y Value) Value {
	switch x := x.(type) {
	case bool:
		if yb, ok := y.(bool); ok {
			return x == yb
		}
		return in.mkb(in.c.Eq(in.boolE(x), in.boolE(y)))
	case uint64:
		if yi, ok := y.(uint64); ok {
			return x == yi
		}
		w := y.(*E).sort
		return in.mkb(in.c.Eq(in.c.BV(x, w), y.(*E)))
	case float64:
		if yf, ok := y.(float64); ok {
			return x == yf
		}
		return in.mkb(in.c.Bin(OFEq, in.c.F(x), y.(*E)))
	case *E:
		switch {
		case x.sort == 0:
			return in.mkb(in.c.Eq(x, in.boolE(y)))
		case x.sort == FPSort:
			return in.mkb(in.c.Bin(OFEq, x, in.fltE(y)))
		default:
			return in.mkb(in.c.Eq(x, in.intE(y, x.sort)))
		}
	case string, *SStr, *Atom, *Cat, *NumStr, *FltStr, *BoolStr, *PatStr:
		return in.eqStr(x, y)
	case *Value:
		yp, ok := y.(*Value)
		if !ok {
			return false
		}
		return x == yp
	case *Map:
		return x == y.(*Map)
	case *Closure:
		yc := y.(*Closure)
		if x != nil && yc != nil {
			in.rtPanic("comparing uncomparable func")
		}
		return x == yc
	case Slice:
		ys := y.(Slice)
		if x != nil && ys != nil {
			in.rtPanic("comparing uncomparable slice")
		}
		return (x == nil) == (ys == nil)
	case *Native:
		return x == y.(*Native)
	case Iface:
		yi := y.(Iface)
		if x.t == nil || yi.t == nil {
			return x.t == nil && yi.t == nil
		}
		if in.canon(x.t) != in.canon(yi.t) {
			return false
		}
		if !types.Comparable(x.t) {
			in.rtPanic("comparing uncomparable type " + in.typeString(x.t))
		}
		return in.eqVal(x.t, x.v, yi.v)
	case Struct:
		ys := y.(Struct)
		st, _ := t.Underlying().(*types.Struct)
		var acc Value = true
		for i := range x {
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
				if st.Field(i).Name() == "_" {
					continue
				}
			}
			acc = in.andV(acc, in.eqVal(ft, x[i], ys[i]))
			if acc == false {
				return false
			}
		}
		return acc
	case Array:
		ya := y.(Array)
		var acc Value = true
		for i := range x {
			acc = in.andV(acc, in.eqVal(nil, x[i], ya[i]))
			if acc == false {
				return false
			}
		}
		return acc
	}
	panic(fmt.Sprintf("eqVal %T %T", x, y))
}

func (in *Interp) andV(a, b Value) Value {
	if ab, ok := a.(bool); ok {
		if !ab {
			return false
		}
		return b
	}
	if bb, ok := b.(bool); ok {
		if !bb {
			return false
		}
		return a
	}
	return in.mkb(in.c.And(a.(*E), b.(*E)))
}
func (in *Interp) notV(a Value) Value {
	if ab, ok := a.(bool); ok {
		return !ab
	}
	return in.mkb(in.c.Not(a.(*E)))
}
func (in *Interp) orV(a, b Value) Value { return in.notV(in.andV(in.notV(a), in.notV(b))) }

// mkb lowers constant boolean expressions to Go bools.
func (in *Interp) mkb(e *E) Value {
	if e.op == OConst {
		return e.val != 0
	}
	return e
}

// mk lowers constant expressions to concrete values.
func (in *Interp) mk(e *E) Value {
	if e.op != OConst {
		return e
	}
	switch {
	case e.sort == 0:
		return e.val != 0
	case e.sort == FPSort:
		return math.Float64frombits(e.val)
	case e.sort > 64:
		return e
	}
	return e.val
}
func (in *Interp) boolE(v Value) *E {
	if b, ok := v.(bool); ok {
		return in.c.Bool(b)
	}
	return v.(*E)
}
func (in *Interp) intE(v Value, w int) *E {
	if u, ok := v.(uint64); ok {
		return in.c.BV(u, w)
	}
	return v.(*E)
}
func (in *Interp) fltE(v Value) *E {
	if f, ok := v.(float64); ok {
		return in.c.F(f)
	}
	return v.(*E)
}

// ---- strings ----

func strLen(v Value) (int, bool) {
	switch v := v.(type) {
	case string:
		return len(v), true
	case *SStr:
		return len(v.b), true
	}
	return 0, false
}

// bytesOf returns the byte values of a string with concrete length.
func bytesOf(v Value) []Value {
	switch v := v.(type) {
	case string:
		r := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = uint64(v[i])
		}
		return r
	case *SStr:
		return v.b
	}
	return nil
}

// mkStr builds a string from byte values.
func mkStr(b []Value) Value {
	if len(b) == 1 {
		if n, ok := b[0].(*Native); ok && n.kind == "text" {
			return n.v.(Value)
		}
	}
	for _, x := range b {
		if _, ok := x.(*E); ok {
			n := make([]Value, len(b))
			copy(n, b)
			return &SStr{n}
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x.(uint64))
	}
	return string(r)
}

func (in *Interp) eqStr(x, y Value) Value {
	if xs, ok := x.(string); ok {
		if ys, ok := y.(string); ok {
			return xs == ys
		}
	}
	if xa, ok := x.(*Atom); ok {
		if ya, ok := y.(*Atom); ok {
			return in.mkb(in.c.Eq(xa.id, ya.id))
		}
		if ys, ok := y.(string); ok {
			return in.mkb(in.c.Eq(xa.id, in.internAtom(xa, ys)))
		}
	}
	if _, ok := y.(*Atom); ok {
		if _, ok := x.(string); ok {
			return in.eqStr(y, x)
		}
	}
	lx, okx := strLen(x)
	ly, oky := strLen(y)
	if okx && oky {
		if lx != ly {
			return false
		}
		bx, by := bytesOf(x), bytesOf(y)
		acc := in.c.tt
		for i := range bx {
			acc = in.c.And(acc, in.c.Eq(in.intE(bx[i], 8), in.intE(by[i], 8)))
			if acc.isFalse() {
				return false
			}
		}
		return in.mkb(acc)
	}
	if p, ok := x.(*PatStr); ok {
		if q, ok := y.(*PatStr); ok {
			if p.id == q.id {
				return true
			}
			// two opaque patterns are textually different unless identical objects
			return false
		}
		if ys, ok := y.(string); ok {
			_ = ys
			return false
		}
	}
	if _, ok := y.(*PatStr); ok {
		return in.eqStr(y, x)
	}
	if a, ok := x.(*NumStr); ok {
		switch b := y.(type) {
		case *NumStr:
			if a.e.sort == b.e.sort && a.signed == b.signed {
				return in.mkb(in.c.Eq(a.e, b.e))
			}
			return in.mkb(in.c.Eq(in.c.Resize(a.e, 128, a.signed), in.c.Resize(b.e, 128, b.signed)))
		case string:
			n, ok := new(big.Int).SetString(b, 10)
			if !ok || n.String() != b {
				return false
			}
			return in.mkb(in.c.Eq(in.c.Resize(a.e, 128, a.signed), in.c.BigBV(n, 128)))
		}
	}
	if _, ok := y.(*NumStr); ok {
		if _, ok := x.(string); ok {
			return in.eqStr(y, x)
		}
	}
	if a, ok := x.(*BoolStr); ok {
		if s, ok := y.(string); ok {
			switch s {
			case "true":
				return in.mkb(a.e)
			case "false":
				return in.mkb(in.c.Not(a.e))
			}
			return false
		}
	}
	if _, ok := y.(*BoolStr); ok {
		if _, ok := x.(string); ok {
			return in.eqStr(y, x)
		}
	}
	// opaque rendering against the empty string or the same parts
	px, py := catParts(x), catParts(y)
	if samePartsStruct(px, py) {
		return true
	}
	if len(px) == 0 || len(py) == 0 { // one is ""
		o := px
		if len(px) == 0 {
			o = py
		}
		for _, p := range o {
			switch p := p.(type) {
			case string:
				if p != "" {
					return false
				}
			case *NumStr, *FltStr, *BoolStr, *PatStr:
				return false
			}
		}
	}
	// align: strip equal leading parts
	for len(px) > 0 && len(py) > 0 && samePartsStruct(px[:1], py[:1]) {
		px, py = px[1:], py[1:]
	}
	for len(px) > 0 && len(py) > 0 && samePartsStruct(px[len(px)-1:], py[len(py)-1:]) {
		px, py = px[:len(px)-1], py[:len(py)-1]
	}
	if len(px) > 0 && len(py) > 0 {
		a, aok := px[0].(string)
		b, bok := py[0].(string)
		if aok && bok && !strings.HasPrefix(a, b) && !strings.HasPrefix(b, a) {
			return false
		}
		if aok && bok && len(px) == 1 && len(py) == 1 {
			return a == b
		}
		if len(px) == 1 && len(py) == 1 && (len(catParts(x)) > 1 || len(catParts(y)) > 1) {
			return in.eqStr(px[0], py[0])
		}
	}
	cx, cy := in.concStr(x), in.concStr(y)
	return cx == cy
}

func catParts(v Value) []Value {
	if c, ok := v.(*Cat); ok {
		return c.parts
	}
	if v == "" {
		return nil
	}
	return []Value{v}
}

func samePartsStruct(a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		switch x := a[i].(type) {
		case string:
			if y, ok := b[i].(string); !ok || x != y {
				return false
			}
		case *Atom:
			if y, ok := b[i].(*Atom); !ok || x.id != y.id {
				return false
			}
		case *NumStr:
			if y, ok := b[i].(*NumStr); !ok || x.e != y.e || x.signed != y.signed {
				return false
			}
		case *FltStr:
			if y, ok := b[i].(*FltStr); !ok || x.e != y.e {
				return false
			}
		case *BoolStr:
			if y, ok := b[i].(*BoolStr); !ok || x.e != y.e {
				return false
			}
		case *PatStr:
			if y, ok := b[i].(*PatStr); !ok || x.id != y.id {
				return false
			}
		case *SStr:
			y, ok := b[i].(*SStr)
			if !ok || len(x.b) != len(y.b) {
				return false
			}
			for j := range x.b {
				if x.b[j] != y.b[j] {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// catStr concatenates two string values.
func (in *Interp) catStr(x, y Value) Value {
	if xs, ok := x.(string); ok {
		if ys, ok := y.(string); ok {
			return xs + ys
		}
		if xs == "" {
			return y
		}
	}
	if ys, ok := y.(string); ok && ys == "" {
		return x
	}
	_, okx := strLen(x)
	_, oky := strLen(y)
	if okx && oky {
		b := append(append([]Value{}, bytesOf(x)...), bytesOf(y)...)
		return mkStr(b)
	}
	var parts []Value
	for _, p := range append(append([]Value{}, catParts(x)...), catParts(y)...) {
		if ps, ok := p.(string); ok && len(parts) > 0 {
			if last, ok := parts[len(parts)-1].(string); ok {
				parts[len(parts)-1] = last + ps
				continue
			}
		}
		parts = append(parts, p)
	}
	return &Cat{parts}
}

// lenStr returns the length as uint64 or *E(64).
func (in *Interp) lenStr(v Value) Value {
	if n, ok := strLen(v); ok {
		return uint64(n)
	}
	switch v := v.(type) {
	case *Atom:
		return v.n
	case *NumStr:
		if v.e.sort <= 64 {
			return in.numStrLen(v)
		}
	case *Cat:
		var acc Value = uint64(0)
		for _, p := range v.parts {
			acc = in.mk(in.c.Bin(OAdd, in.intE(acc, 64), in.intE(in.lenStr(p), 64)))
		}
		return acc
	case *PatStr:
		return uint64(7)
	case *BoolStr:
		return in.mk(in.c.Ite(v.e, in.c.BV(4, 64), in.c.BV(5, 64)))
	}
	s := in.concStr(v)
	return uint64(len(s))
}

func (in *Interp) numStrLen(v *NumStr) Value {
	c := in.c
	e := c.Resize(v.e, 64, v.signed)
	neg := c.ff
	if v.signed {
		neg = c.Bin(OSLt, e, c.BV(0, 64))
		e = c.Ite(neg, c.Un(ONeg, e), e)
	}
	n := c.BV(1, 64)
	p := uint64(10)
	for i := 2; i <= 20; i++ {
		n = c.Ite(c.Bin(OULe, c.BV(p, 64), e), c.BV(uint64(i), 64), n)
		if i == 20 {
			break
		}
		p *= 10
	}
	return in.mk(c.Bin(OAdd, n, c.Ite(neg, c.BV(1, 64), c.BV(0, 64))))
}
