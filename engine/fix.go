package main

import "math"

// Exact fixed-point reading of floats derived from small integers. A float expression built from
// integers of at most 32 bits, small dyadic constants, additions and divisions by powers of two never
// rounds, so comparisons and conversions on it are decided over bit-vectors instead of FP terms.
type fixed struct {
	bv   *E // BV64, signed
	s    int
	bits int // |bv| < 2^bits
}

func effBits(x *E, signed bool) int {
	switch x.op {
	case OSExt:
		return effBits(x.args[0], true)
	case OZExt:
		return effBits(x.args[0], false)
	}
	if signed {
		return x.sort - 1
	}
	return x.sort
}

func (c *Ctx) fix(e *E) (fixed, bool) {
	if e.sort != FPSort {
		return fixed{}, false
	}
	switch e.op {
	case OConst:
		f := math.Float64frombits(e.val)
		if f != f || math.Abs(f) >= 1<<44 {
			return fixed{}, false
		}
		for s := 0; s <= 8; s++ {
			g := f * float64(int(1)<<s)
			if g == math.Trunc(g) {
				n := 0
				for math.Abs(g) >= float64(uint64(1)<<n) {
					n++
				}
				return fixed{c.BV(uint64(int64(g)), 64), s, n}, true
			}
		}
		return fixed{}, false
	case OSToF, OUToF:
		sg := e.op == OSToF
		x := e.args[0]
		b := effBits(x, sg)
		if x.sort > 64 || b > 44 {
			return fixed{}, false
		}
		if x.op == OSExt {
			sg = true
		} else if x.op == OZExt {
			sg = false
		}
		return fixed{c.Resize(x, 64, sg), 0, b}, true
	case OFDiv:
		a, ok := c.fix(e.args[0])
		d := e.args[1]
		if !ok || d.op != OConst {
			return fixed{}, false
		}
		f := math.Float64frombits(d.val)
		for k := 0; k <= 4; k++ {
			if f == float64(int(1)<<k) {
				return fixed{a.bv, a.s + k, a.bits}, a.s+k <= 8
			}
		}
		return fixed{}, false
	case OFAdd, OFSub:
		a, ok1 := c.fix(e.args[0])
		b, ok2 := c.fix(e.args[1])
		if !ok1 || !ok2 {
			return fixed{}, false
		}
		x, y, s, n := c.align(a, b)
		if n+1 > 52 {
			return fixed{}, false
		}
		op := OAdd
		if e.op == OFSub {
			op = OSub
		}
		return fixed{c.Bin(op, x, y), s, n + 1}, true
	case OIte:
		a, ok1 := c.fix(e.args[1])
		b, ok2 := c.fix(e.args[2])
		if !ok1 || !ok2 {
			return fixed{}, false
		}
		x, y, s, n := c.align(a, b)
		return fixed{c.Ite(e.args[0], x, y), s, n}, true
	case OFRound:
		a, ok := c.fix(e.args[0])
		if !ok {
			return fixed{}, false
		}
		return fixed{c.fixTrunc(a, int(e.val)), 0, a.bits + 1}, true
	case OFNeg:
		a, ok := c.fix(e.args[0])
		if !ok {
			return fixed{}, false
		}
		return fixed{c.Un(ONeg, a.bv), a.s, a.bits}, true
	}
	return fixed{}, false
}

// fixTrunc rounds to an integer: 0 toward zero, 1 down, 2 up.
func (c *Ctx) fixTrunc(a fixed, mode int) *E {
	if a.s == 0 {
		return a.bv
	}
	sh := c.BV(uint64(a.s), 64)
	down := c.Bin(OAShr, a.bv, sh)
	m := c.BV(uint64(1)<<a.s-1, 64)
	up := c.Bin(OAShr, c.Bin(OAdd, a.bv, m), sh)
	switch mode {
	case 1:
		return down
	case 2:
		return up
	}
	return c.Ite(c.Bin(OSLt, a.bv, c.BV(0, 64)), up, down)
}

func (c *Ctx) align(a, b fixed) (x, y *E, s, n int) {
	x, y, s = a.bv, b.bv, a.s
	na, nb := a.bits, b.bits
	if a.s < b.s {
		x = c.Bin(OShl, x, c.BV(uint64(b.s-a.s), 64))
		na += b.s - a.s
		s = b.s
	} else if b.s < a.s {
		y = c.Bin(OShl, y, c.BV(uint64(a.s-b.s), 64))
		nb += a.s - b.s
	}
	if nb > na {
		na = nb
	}
	return x, y, s, na
}

// fixOp rewrites an FP operation over exactly represented operands.
func (c *Ctx) fixOp(op Op, sort int, val uint64, args []*E) *E {
	switch op {
	case OFEq, OFLt, OFLe:
		if args[0] == args[1] && (args[0].op == OSToF || args[0].op == OUToF) {
			return c.Bool(op != OFLt)
		}
		a, ok1 := c.fix(args[0])
		b, ok2 := c.fix(args[1])
		// a comparison against an infinite or huge constant is decided by the range (|fixed| < 2^52)
		if huge := func(e *E) float64 {
			if e.op == OConst {
				if f := math.Float64frombits(e.val); math.Abs(f) >= 1<<52 {
					return f
				}
			}
			return 0
		}; ok1 && !ok2 && huge(args[1]) != 0 {
			return c.Bool(op != OFEq && huge(args[1]) > 0)
		} else if ok2 && !ok1 && huge(args[0]) != 0 {
			return c.Bool(op != OFEq && huge(args[0]) < 0)
		}
		if !ok1 || !ok2 {
			return nil
		}
		x, y, _, n := c.align(a, b)
		if n > 62 {
			return nil
		}
		switch op {
		case OFEq:
			return c.Eq(x, y)
		case OFLt:
			return c.Bin(OSLt, x, y)
		}
		return c.Bin(OSLe, x, y)
	case OFIsNaN, OFIsInf:
		if _, ok := c.fix(args[0]); ok {
			return c.ff
		}
	case OFToS:
		if a, ok := c.fix(args[0]); ok {
			return c.Resize(c.fixTrunc(a, 0), sort, true)
		}
	case OFToU:
		if a, ok := c.fix(args[0]); ok {
			return c.Resize(c.fixTrunc(a, 0), sort, true)
		}
	}
	return nil
}
