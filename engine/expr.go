package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
)

// Sorts: 0 = Bool, 1..128 = bit-vector of that width, FPSort = Float64.
const FPSort = 200

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OShl
	OLShr
	OAShr
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OULt
	OULe
	OSLt
	OSLe
	OZExt
	OSExt
	OExtract // low bits [w-1:0] offset in val
	OConcat
	OFromBits // BV64 -> FP
	OFLt
	OFLe
	OFEq
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFIsNaN
	OFIsInf
	OFRound // val: 0 RTZ(trunc) 1 floor 2 ceil
	OSToF   // signed bv -> fp RNE
	OUToF
	OFToS // fp -> bv64 signed RTZ (unspecified outside range)
	OFToU
	OToBits // FP -> BV64 (only as fresh var constraint; not emitted)
)

type E struct {
	op   Op
	sort int
	args []*E
	val  uint64   // const (<=64 bits) / extract offset
	big  *big.Int // const >64
	name string
	id   int
	sent int // generation in which it was defined in the solver
	hasv bool
}

type exprKey struct {
	op      Op
	sort    int
	a, b, c int
	val     uint64
	name    string
}

type Ctx struct {
	table map[exprKey]*E
	next  int
	tt    *E
	ff    *E
}

func newCtx() *Ctx {
	c := &Ctx{table: map[exprKey]*E{}}
	c.tt = c.mk(OConst, 0, 1, nil, "")
	c.ff = c.mk(OConst, 0, 0, nil, "")
	return c
}

func (c *Ctx) mk(op Op, sort int, val uint64, b *big.Int, name string, args ...*E) *E {
	k := exprKey{op: op, sort: sort, val: val, name: name, a: -1, b: -1, c: -1}
	if b != nil {
		k.name = b.String()
	}
	if len(args) > 0 {
		k.a = args[0].id
	}
	if len(args) > 1 {
		k.b = args[1].id
	}
	if len(args) > 2 {
		k.c = args[2].id
	}
	if e, ok := c.table[k]; ok {
		return e
	}
	e := &E{op: op, sort: sort, val: val, big: b, name: name, args: args, id: c.next}
	c.next++
	e.hasv = op == OVar
	for _, a := range args {
		if a.hasv {
			e.hasv = true
		}
	}
	c.table[k] = e
	return e
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

var big128 = new(big.Int).Lsh(big.NewInt(1), 128)

func bigMod(b *big.Int, w int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	r := new(big.Int).Mod(b, m)
	return r
}

func bigSigned(b *big.Int, w int) *big.Int {
	h := new(big.Int).Lsh(big.NewInt(1), uint(w-1))
	if b.Cmp(h) >= 0 {
		return new(big.Int).Sub(b, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return b
}

func (c *Ctx) Bool(b bool) *E {
	if b {
		return c.tt
	}
	return c.ff
}
func (c *Ctx) BV(v uint64, w int) *E {
	if w > 64 {
		return c.BigBV(new(big.Int).SetUint64(v), w)
	}
	return c.mk(OConst, w, v&mask(w), nil, "")
}
func (c *Ctx) BigBV(b *big.Int, w int) *E {
	if w <= 64 {
		return c.BV(bigMod(b, w).Uint64(), w)
	}
	return c.mk(OConst, w, 0, bigMod(b, w), "")
}
func (c *Ctx) F(f float64) *E { return c.mk(OConst, FPSort, math.Float64bits(f), nil, "") }
func (c *Ctx) Var(name string, sort int) *E {
	return c.mk(OVar, sort, 0, nil, name)
}

func (e *E) isConst() bool { return e.op == OConst }
func (e *E) isTrue() bool  { return e.op == OConst && e.sort == 0 && e.val == 1 }
func (e *E) isFalse() bool { return e.op == OConst && e.sort == 0 && e.val == 0 }

// V is a concrete evaluation result.
type V struct {
	u uint64
	b *big.Int
}

func (c *Ctx) constV(v V, sort int) *E {
	if v.b != nil {
		return c.BigBV(v.b, sort)
	}
	return c.mk(OConst, sort, v.u, nil, "")
}

func (e *E) constVal() V {
	if e.big != nil {
		return V{b: e.big}
	}
	return V{u: e.val}
}

func (v V) Big() *big.Int {
	if v.b != nil {
		return v.b
	}
	return new(big.Int).SetUint64(v.u)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// apply computes an operator on concrete arguments.
func apply(op Op, sort int, val uint64, args []V, sorts []int) V {
	if len(sorts) > 0 && (sort > 64 && sort < FPSort || sorts[len(sorts)-1] > 64 && sorts[len(sorts)-1] < FPSort) {
		return applyBig(op, sort, val, args, sorts)
	}
	w := sort
	var a, b uint64
	if len(args) > 0 {
		a = args[0].u
	}
	if len(args) > 1 {
		b = args[1].u
	}
	aw := 0
	if len(sorts) > 0 {
		aw = sorts[0]
	}
	fa, fb := math.Float64frombits(a), math.Float64frombits(b)
	u := func(x uint64) V { return V{u: x & mask(w)} }
	bo := func(x bool) V { return V{u: b2u(x)} }
	fl := func(x float64) V { return V{u: math.Float64bits(x)} }
	switch op {
	case ONot:
		return bo(a == 0)
	case OAnd:
		return bo(a != 0 && b != 0)
	case OOr:
		return bo(a != 0 || b != 0)
	case OEq:
		return bo(a == b)
	case OIte:
		if a != 0 {
			return args[1]
		}
		return args[2]
	case OAdd:
		return u(a + b)
	case OSub:
		return u(a - b)
	case OMul:
		return u(a * b)
	case OUDiv:
		if b == 0 {
			return u(^uint64(0))
		}
		return u(a / b)
	case OURem:
		if b == 0 {
			return u(a)
		}
		return u(a % b)
	case OSDiv:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			if sa < 0 {
				return u(1)
			}
			return u(^uint64(0))
		}
		if sb == -1 {
			return u(uint64(-sa))
		}
		return u(uint64(sa / sb))
	case OSRem:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			return u(a)
		}
		if sb == -1 {
			return u(0)
		}
		return u(uint64(sa % sb))
	case OShl:
		if b >= uint64(w) {
			return u(0)
		}
		return u(a << b)
	case OLShr:
		if b >= uint64(w) {
			return u(0)
		}
		return u(a >> b)
	case OAShr:
		s := b
		if s >= 63 {
			s = 63
		}
		return u(uint64(sext(a, w) >> s))
	case OBAnd:
		return u(a & b)
	case OBOr:
		return u(a | b)
	case OBXor:
		return u(a ^ b)
	case OBNot:
		return u(^a)
	case ONeg:
		return u(-a)
	case OULt:
		return bo(a < b)
	case OULe:
		return bo(a <= b)
	case OSLt:
		return bo(sext(a, aw) < sext(b, aw))
	case OSLe:
		return bo(sext(a, aw) <= sext(b, aw))
	case OZExt:
		return u(a)
	case OSExt:
		return u(uint64(sext(a, aw)))
	case OExtract:
		return u(a >> val)
	case OFromBits:
		f := math.Float64frombits(a)
		if f != f {
			f = math.NaN()
		}
		return fl(f)
	case OFLt:
		return bo(fa < fb)
	case OFLe:
		return bo(fa <= fb)
	case OFEq:
		return bo(fa == fb)
	case OFAdd:
		return fl(fa + fb)
	case OFSub:
		return fl(fa - fb)
	case OFMul:
		return fl(fa * fb)
	case OFDiv:
		return fl(fa / fb)
	case OFNeg:
		return fl(-fa)
	case OFAbs:
		return fl(math.Abs(fa))
	case OFIsNaN:
		return bo(fa != fa)
	case OFIsInf:
		return bo(math.IsInf(fa, 0))
	case OFRound:
		switch val {
		case 0:
			return fl(math.Trunc(fa))
		case 1:
			return fl(math.Floor(fa))
		default:
			return fl(math.Ceil(fa))
		}
	case OSToF:
		return fl(float64(sext(a, aw)))
	case OUToF:
		return fl(float64(a))
	case OFToS:
		if fa != fa || fa >= 9.223372036854775807e18 || fa < -9.223372036854775808e18 {
			return u(0)
		}
		return u(uint64(int64(fa)))
	case OFToU:
		if fa != fa || fa >= 18446744073709551615.0 || fa <= -1 {
			return u(0)
		}
		return u(uint64(fa))
	}
	panic(fmt.Sprintf("apply op %d", op))
}

func applyBig(op Op, sort int, val uint64, args []V, sorts []int) V {
	w := sort
	if op == OFToS {
		f := math.Float64frombits(args[0].u)
		if f != f || math.IsInf(f, 0) || math.Abs(f) >= 0x1p127 {
			return V{b: new(big.Int)}
		}
		b, _ := big.NewFloat(f).Int(nil)
		if b.Sign() < 0 {
			b.Add(b, new(big.Int).Lsh(big.NewInt(1), uint(w)))
		}
		return V{b: b}
	}
	x := args[0].Big()
	var y *big.Int
	if len(args) > 1 {
		y = args[1].Big()
	}
	aw := sorts[len(sorts)-1]
	r := func(b *big.Int) V {
		b = bigMod(b, w)
		if w <= 64 {
			return V{u: b.Uint64()}
		}
		return V{b: b}
	}
	bo := func(x bool) V { return V{u: b2u(x)} }
	switch op {
	case OEq:
		return bo(x.Cmp(y) == 0)
	case OIte:
		if x.Sign() != 0 {
			return args[1]
		}
		return args[2]
	case OAdd:
		return r(new(big.Int).Add(x, y))
	case OSub:
		return r(new(big.Int).Sub(x, y))
	case OMul:
		return r(new(big.Int).Mul(x, y))
	case ONeg:
		return r(new(big.Int).Neg(x))
	case OSDiv, OSRem:
		sx, sy := bigSigned(x, aw), bigSigned(y, aw)
		if sy.Sign() == 0 {
			if op == OSRem {
				return r(sx)
			}
			if sx.Sign() < 0 {
				return r(big.NewInt(1))
			}
			return r(big.NewInt(-1))
		}
		q, m := new(big.Int).QuoRem(sx, sy, new(big.Int))
		if op == OSDiv {
			return r(q)
		}
		return r(m)
	case OUDiv, OURem:
		if y.Sign() == 0 {
			if op == OURem {
				return r(x)
			}
			return r(big.NewInt(-1))
		}
		q, m := new(big.Int).QuoRem(x, y, new(big.Int))
		if op == OUDiv {
			return r(q)
		}
		return r(m)
	case OULt:
		return bo(x.Cmp(y) < 0)
	case OULe:
		return bo(x.Cmp(y) <= 0)
	case OSLt:
		return bo(bigSigned(x, aw).Cmp(bigSigned(y, aw)) < 0)
	case OSLe:
		return bo(bigSigned(x, aw).Cmp(bigSigned(y, aw)) <= 0)
	case OZExt:
		return r(x)
	case OSExt:
		return r(bigSigned(x, sorts[0]))
	case OExtract:
		return r(new(big.Int).Rsh(x, uint(val)))
	}
	panic(fmt.Sprintf("applyBig op %d", op))
}

func (c *Ctx) node(op Op, sort int, val uint64, args ...*E) *E {
	allc := true
	for _, a := range args {
		if a.op != OConst {
			allc = false
			break
		}
	}
	if allc {
		vs := make([]V, len(args))
		ss := make([]int, len(args))
		for i, a := range args {
			vs[i] = a.constVal()
			ss[i] = a.sort
		}
		return c.constV(apply(op, sort, val, vs, ss), sort)
	}
	if len(args) > 0 && args[0].sort == FPSort {
		if r := c.fixOp(op, sort, val, args); r != nil {
			return r
		}
	}
	return c.mk(op, sort, val, nil, "", args...)
}

func (c *Ctx) Not(a *E) *E {
	if a.op == OConst {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.mk(ONot, 0, 0, nil, "", a)
}
func (c *Ctx) And(a, b *E) *E {
	if a.isFalse() || b.isFalse() {
		return c.ff
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if a.op == ONot && a.args[0] == b || b.op == ONot && b.args[0] == a {
		return c.ff
	}
	if r := c.andOrder(a, b); r != nil {
		return r
	}
	if r := c.andOrder(b, a); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, 0, 0, nil, "", a, b)
}

// andOrder simplifies conjunctions of comparisons of the same two terms (trichotomy).
func (c *Ctx) andOrder(a, b *E) *E {
	an, bn := false, false
	x, y := a, b
	if x.op == ONot {
		an, x = true, x.args[0]
	}
	if y.op == ONot {
		bn, y = true, y.args[0]
	}
	if x.op != OSLt && x.op != OULt {
		return nil
	}
	u, v := x.args[0], x.args[1]
	switch {
	case y.op == x.op && y.args[0] == v && y.args[1] == u:
		switch {
		case !an && !bn:
			return c.ff
		case !an:
			return a
		case !bn:
			return b
		}
		return c.Eq(u, v)
	case y.op == OEq && (y.args[0] == u && y.args[1] == v || y.args[0] == v && y.args[1] == u):
		switch {
		case !an && !bn:
			return c.ff
		case !an:
			return a
		case !bn:
			return b
		}
		return c.Bin(x.op, v, u)
	}
	return nil
}
func (c *Ctx) Or(a, b *E) *E { return c.Not(c.And(c.Not(a), c.Not(b))) }
func (c *Ctx) Eq(a, b *E) *E {
	if a == b {
		return c.tt
	}
	if a.sort == FPSort {
		panic("Eq on FP")
	}
	if a.sort == 0 {
		if a.op == OConst {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if a.op == b.op && (a.op == OSExt || a.op == OZExt) && a.args[0].sort == b.args[0].sort {
		return c.Eq(a.args[0], b.args[0])
	}
	// ite(c, k1, k2) == k
	if b.op == OIte && a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst && a.op == OIte && constLeaves(a, 4) {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if a.op == OIte && b.op == OConst && a.args[1].op == OConst && a.args[2].op == OConst {
		l, r := a.args[1] == b, a.args[2] == b
		switch {
		case l && r:
			return c.tt
		case l:
			return a.args[0]
		case r:
			return c.Not(a.args[0])
		default:
			return c.ff
		}
	}
	if a.op == OZExt && b.op == OConst && a.sort <= 64 {
		iw := a.args[0].sort
		if b.val > mask(iw) {
			return c.ff
		}
		return c.Eq(a.args[0], c.BV(b.val, iw))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.node(OEq, 0, 0, a, b)
}
func (c *Ctx) Ite(p, a, b *E) *E {
	if p.isTrue() {
		return a
	}
	if p.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == 0 {
		return c.Or(c.And(p, a), c.And(c.Not(p), b))
	}
	return c.mk(OIte, a.sort, 0, nil, "", p, a, b)
}
func (c *Ctx) Bin(op Op, a, b *E) *E {
	switch op {
	case OULt, OULe, OSLt, OSLe, OFLt, OFLe, OFEq:
		if a == b && a.sort != FPSort {
			return c.Bool(op == OULe || op == OSLe)
		}
		if op == OULe {
			return c.Not(c.Bin(OULt, b, a))
		}
		if op == OSLe {
			return c.Not(c.Bin(OSLt, b, a))
		}
		if op == OULt || op == OSLt {
			if a.op == b.op && a.args != nil && b.args != nil && a.args[0].sort == b.args[0].sort {
				if a.op == OZExt {
					return c.Bin(OULt, a.args[0], b.args[0])
				}
				if a.op == OSExt && op == OSLt {
					return c.Bin(OSLt, a.args[0], b.args[0])
				}
			}
			if a.op == OZExt && b.op == OConst && a.sort <= 64 && (op == OULt || b.val>>uint(a.sort-1) == 0) {
				iw := a.args[0].sort
				if b.val > mask(iw) {
					return c.tt
				}
				return c.Bin(OULt, a.args[0], c.BV(b.val, iw))
			}
			if b.op == OZExt && a.op == OConst && a.sort <= 64 && (op == OULt || a.val>>uint(a.sort-1) == 0) {
				iw := b.args[0].sort
				if a.val >= mask(iw) {
					return c.ff
				}
				return c.Bin(OULt, c.BV(a.val, iw), b.args[0])
			}
			if b.op == OConst && a.op == OIte && constLeaves(a, 4) {
				return c.Ite(a.args[0], c.Bin(op, a.args[1], b), c.Bin(op, a.args[2], b))
			}
			if a.op == OConst && b.op == OIte && constLeaves(b, 4) {
				return c.Ite(b.args[0], c.Bin(op, a, b.args[1]), c.Bin(op, a, b.args[2]))
			}
		}
		if op == OULt && b.op == OConst && b.sort <= 64 && b.val == 0 {
			return c.ff
		}
		return c.node(op, 0, 0, a, b)
	}
	if a.sort <= 64 {
		switch op {
		case OAdd, OBOr, OBXor, OShl, OLShr, OAShr:
			if b.op == OConst && b.val == 0 {
				return a
			}
			if op != OShl && op != OLShr && op != OAShr && a.op == OConst && a.val == 0 {
				return b
			}
		case OSub:
			if b.op == OConst && b.val == 0 {
				return a
			}
			if a == b {
				return c.BV(0, a.sort)
			}
		case OMul:
			if b.op == OConst && b.val == 1 {
				return a
			}
			if a.op == OConst && a.val == 1 {
				return b
			}
		case OBAnd:
			if b.op == OConst && b.val == mask(b.sort) {
				return a
			}
			if b.op == OConst && b.val == 0 {
				return b
			}
		}
	}
	return c.node(op, a.sort, 0, a, b)
}
// constLeaves reports whether e is an if-then-else tree over constants.
func constLeaves(e *E, depth int) bool {
	if e.op == OConst {
		return true
	}
	return depth > 0 && e.op == OIte && constLeaves(e.args[1], depth-1) && constLeaves(e.args[2], depth-1)
}

func (c *Ctx) Un(op Op, a *E) *E {
	switch op {
	case OFIsNaN, OFIsInf:
		return c.node(op, 0, 0, a)
	}
	return c.node(op, a.sort, 0, a)
}
func (c *Ctx) Resize(a *E, w int, signed bool) *E {
	if a.sort == w {
		return a
	}
	if a.sort > w {
		if (a.op == OZExt || a.op == OSExt) && a.args[0].sort >= w {
			return c.Resize(a.args[0], w, signed)
		}
		return c.node(OExtract, w, 0, a)
	}
	if signed {
		if a.op == OSExt {
			return c.Resize(a.args[0], w, true)
		}
		return c.node(OSExt, w, 0, a)
	}
	if a.op == OZExt {
		return c.Resize(a.args[0], w, false)
	}
	return c.node(OZExt, w, 0, a)
}

// Model maps variable name to value; missing variables are 0.
type Model map[string]V

func (e *E) eval(m Model, memo map[*E]V) V {
	if e.op == OConst {
		return e.constVal()
	}
	if v, ok := memo[e]; ok {
		return v
	}
	var r V
	switch e.op {
	case OVar:
		r = m[e.name]
		if e.sort > 64 && e.sort < FPSort && r.b == nil {
			r.b = new(big.Int).SetUint64(r.u)
		}
	case OAnd:
		r = e.args[0].eval(m, memo)
		if r.u != 0 {
			r = e.args[1].eval(m, memo)
		}
	case OIte:
		if e.args[0].eval(m, memo).u != 0 {
			r = e.args[1].eval(m, memo)
		} else {
			r = e.args[2].eval(m, memo)
		}
	default:
		var vs [3]V
		var ss [3]int
		for i, a := range e.args {
			vs[i] = a.eval(m, memo)
			ss[i] = a.sort
		}
		r = apply(e.op, e.sort, e.val, vs[:len(e.args)], ss[:len(e.args)])
	}
	memo[e] = r
	return r
}

func sortName(s int) string {
	switch s {
	case 0:
		return "Bool"
	case FPSort:
		return "Float64"
	}
	return "(_ BitVec " + strconv.Itoa(s) + ")"
}

func constStr(e *E) string {
	switch {
	case e.sort == 0:
		if e.val == 1 {
			return "true"
		}
		return "false"
	case e.sort == FPSort:
		f := math.Float64frombits(e.val)
		if f != f {
			return "(_ NaN 11 53)"
		}
		return fmt.Sprintf("(fp #b%b #b%011b #b%052b)", e.val>>63, (e.val>>52)&0x7ff, e.val&(1<<52-1))
	}
	b := e.constVal().Big()
	return fmt.Sprintf("(_ bv%s %d)", b.String(), e.sort)
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg",
	OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle",
	OFromBits: "(_ to_fp 11 53)", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFAbs: "fp.abs",
	OFIsNaN: "fp.isNaN", OFIsInf: "fp.isInfinite", OSToF: "(_ to_fp 11 53) RNE", OUToF: "(_ to_fp_unsigned 11 53) RNE",
	OFToS: "(_ fp.to_sbv 64) RTZ", OFToU: "(_ fp.to_ubv 64) RTZ",
}

func (e *E) ref() string {
	switch e.op {
	case OConst:
		return constStr(e)
	case OVar:
		return e.name
	}
	return "n" + strconv.Itoa(e.id)
}

func (e *E) body(sb *strings.Builder) {
	sb.WriteByte('(')
	switch e.op {
	case OZExt:
		fmt.Fprintf(sb, "(_ zero_extend %d)", e.sort-e.args[0].sort)
	case OSExt:
		fmt.Fprintf(sb, "(_ sign_extend %d)", e.sort-e.args[0].sort)
	case OExtract:
		fmt.Fprintf(sb, "(_ extract %d %d)", int(e.val)+e.sort-1, e.val)
	case OFToS:
		fmt.Fprintf(sb, "(_ fp.to_sbv %d) RTZ", e.sort)
	case OFRound:
		sb.WriteString("fp.roundToIntegral " + []string{"RTZ", "RTN", "RTP"}[e.val])
	default:
		n, ok := opNames[e.op]
		if !ok {
			panic(fmt.Sprintf("no smt name for op %d", e.op))
		}
		sb.WriteString(n)
	}
	for _, a := range e.args {
		sb.WriteByte(' ')
		sb.WriteString(a.ref())
	}
	sb.WriteByte(')')
}

// String renders the expression for humans (bounded).
func (e *E) String() string {
	return e.str(6)
}
func (e *E) str(d int) string {
	switch e.op {
	case OConst:
		if e.sort > 0 && e.sort <= 64 {
			return strconv.FormatInt(sext(e.val, e.sort), 10)
		}
		if e.sort == FPSort {
			return strconv.FormatFloat(math.Float64frombits(e.val), 'g', -1, 64)
		}
		return constStr(e)
	case OVar:
		return e.name
	}
	if d == 0 {
		return "…"
	}
	var sb strings.Builder
	sb.WriteByte('(')
	n := opNames[e.op]
	if n == "" {
		n = "op" + strconv.Itoa(int(e.op))
	}
	sb.WriteString(n)
	for _, a := range e.args {
		sb.WriteByte(' ')
		sb.WriteString(a.str(d - 1))
	}
	sb.WriteByte(')')
	return sb.String()
}

var _ = bits.Len
