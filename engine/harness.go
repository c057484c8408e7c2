package main

import (
	"regexp/syntax"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Harness primitives: functions named nd*/v* declared in zz_verif_rt.go.
func addHarness(m map[string]intrinsic) {
	h := func(n string, f intrinsic) { m["harness."+n] = f }
	rec := func(in *Interp, r ndRec) { in.p.nd = append(in.p.nd, r) }
	h("ndBool", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		e := in.newVar("b", 0)
		rec(in, ndRec{kind: "bool", e: e, name: nm(a)})
		return e
	})
	intv := func(kind string, w int) intrinsic {
		return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			e := in.newVar(kind[:1], w)
			rec(in, ndRec{kind: kind, e: e, name: nm(a)})
			return e
		}
	}
	h("ndInt", intv("int", 64))
	h("ndUint", intv("uint", 64))
	h("ndFloat", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		e := in.newVar("f", 64)
		rec(in, ndRec{kind: "float", e: e, name: nm(a)})
		return in.c.node(OFromBits, FPSort, 0, e)
	})
	h("ndByte", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		e := in.newVar("y", 8)
		rec(in, ndRec{kind: "uint", e: in.c.Resize(e, 64, false), name: nm(a)})
		return e
	})
	h("ndChoice", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(in.concInt(a[0], 64))
		i := in.choose(n, "choice")
		nn := ""
		if len(a) > 1 {
			nn, _ = a[1].(string)
		}
		rec(in, ndRec{kind: "choice", v: i, name: nn})
		return uint64(i)
	})
	h("ndStr", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(in.concInt(a[0], 64))
		l := in.choose(n+1, "strlen")
		return in.ndBytes(l)
	})
	h("ndStrN", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.ndBytes(int(in.concInt(a[0], 64)))
	})
	h("ndAtom", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(in.concInt(a[0], 64))
		at := in.newAtom("", n)
		rec(in, ndRec{kind: "atom", a: at})
		return at
	})
	h("ndPattern", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := &patState{id: len(in.p.pats)}
		in.p.pats = append(in.p.pats, p)
		rec(in, ndRec{kind: "pattern", pat: p})
		return &PatStr{p.id}
	})
	h("vPlace", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x := a[0].(Iface)
		k := kindOf(x.t)
		var v Value
		quote := false
		switch k.k {
		case 'i':
			if u, ok := x.v.(uint64); ok {
				if k.signed {
					return strconv.FormatInt(sext(u, k.w), 10)
				}
				return strconv.FormatUint(u, 10)
			}
			v = &NumStr{in.c.Resize(x.v.(*E), 64, k.signed), k.signed}
		case 'b':
			if b, ok := x.v.(bool); ok {
				return strconv.FormatBool(b)
			}
			v = &BoolStr{x.v.(*E)}
		case 'f':
			if f, ok := x.v.(float64); ok {
				return yamlFloat(f)
			}
			v = &FltStr{e: x.v.(*E)}
		case 's':
			quote = true
			v = x.v
			if s, ok := v.(string); ok {
				return strconv.QuoteToASCII(s)
			}
		default:
			in.unsup("vPlace %v", x.t)
		}
		in.p.places = append(in.p.places, v)
		s := "__SYM" + strconv.Itoa(len(in.p.places)-1) + "__"
		if quote {
			s = "\"" + s + "\""
		}
		return s
	})
	h("vAssume", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.assume(in.boolE(a[0]))
		return nil
	})
	h("vAssert", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.assertV(a[0], in.strPinOr(a[1]))
		return nil
	})
	h("vReach", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.p.reach = append(in.p.reach, in.strPinOr(a[0]))
		return nil
	})
	h("vObs", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.p.obs = append(in.p.obs, obsRec{in.strPinOr(a[0]), a[1]})
		return nil
	})
	h("vAnd", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		var acc Value = true
		for _, x := range argSlice(a[0]) {
			acc = in.andV(acc, x)
		}
		return acc
	})
	h("vOr", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		var acc Value = false
		for _, x := range argSlice(a[0]) {
			acc = in.orV(acc, x)
		}
		return acc
	})
	h("vIff", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.mkb(in.c.Eq(in.boolE(a[0]), in.boolE(a[1])))
	})
	h("vMapOrder", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.p.mapOrder = a[0].(bool)
		return nil
	})
	h("vFile", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		fs, _ := in.scratch["vfs"].(map[string]string)
		nf := map[string]string{}
		if in.scratch["vfspath"] == in.p {
			for k, v := range fs {
				nf[k] = v
			}
		}
		in.scratch["vfspath"] = in.p
		nf["/vfs/"+in.strPinOr(a[0])] = in.strPinOr(a[1])
		in.scratch["vfs"] = nf
		return nil
	})
	h("vDir", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return "/vfs" })
	h("vLess128", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return fallthru{} })
}

func nm(a []Value) string {
	if len(a) > 0 {
		s, _ := a[0].(string)
		return s
	}
	return ""
}

func yamlFloat(f float64) string {
	s := strconv.FormatFloat(f, 'g', -1, 64)
	switch s {
	case "NaN":
		return ".nan"
	case "+Inf":
		return ".inf"
	case "-Inf":
		return "-.inf"
	}
	for _, r := range s {
		if r == '.' || r == 'e' {
			return s
		}
	}
	return s + ".0"
}

func (in *Interp) ndBytes(n int) Value {
	bs := make([]Value, n)
	for i := range bs {
		bs[i] = in.newVar("c", 8)
	}
	in.p.nd = append(in.p.nd, ndRec{kind: "str", v: bs})
	return mkStr(bs)
}

// symMatch decides regexp matching on symbolic bytes (ASCII) by simulating the program with formulas.
func (in *Interp) symMatch(src string, s *SStr) Value {
	c := in.c
	for _, b := range s.b {
		if e, ok := b.(*E); ok {
			if !in.branch(c.Bin(OULt, e, c.BV(0x80, 8))) {
				in.unsup("regexp on non-ASCII symbolic byte")
			}
		}
	}
	re, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		in.unsup("regexp parse")
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		in.unsup("regexp compile")
	}
	n := len(s.b)
	byteE := func(i int) *E { return in.intE(s.b[i], 8) }
	isWord := func(i int) *E {
		if i < 0 || i >= n {
			return c.ff
		}
		b := byteE(i)
		rg := func(lo, hi byte) *E {
			return c.And(c.Bin(OULe, c.BV(uint64(lo), 8), b), c.Bin(OULe, b, c.BV(uint64(hi), 8)))
		}
		return c.Or(c.Or(rg('a', 'z'), rg('A', 'Z')), c.Or(rg('0', '9'), c.Eq(b, c.BV('_', 8))))
	}
	cond := func(op syntax.EmptyOp, pos int) *E {
		acc := c.tt
		if op&syntax.EmptyBeginText != 0 && pos != 0 {
			return c.ff
		}
		if op&syntax.EmptyEndText != 0 && pos != n {
			return c.ff
		}
		if op&syntax.EmptyBeginLine != 0 && pos != 0 {
			acc = c.And(acc, c.Eq(byteE(pos-1), c.BV('\n', 8)))
		}
		if op&syntax.EmptyEndLine != 0 && pos != n {
			acc = c.And(acc, c.Eq(byteE(pos), c.BV('\n', 8)))
		}
		if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
			wb := c.Not(c.Eq(isWord(pos-1), isWord(pos)))
			if op&syntax.EmptyWordBoundary != 0 {
				acc = c.And(acc, wb)
			} else {
				acc = c.And(acc, c.Not(wb))
			}
		}
		return acc
	}
	matched := c.ff
	cur := map[uint32]*E{}
	var addS func(set map[uint32]*E, pc uint32, g *E, pos int, onpath map[uint32]bool)
	addS = func(set map[uint32]*E, pc uint32, g *E, pos int, onpath map[uint32]bool) {
		if g.isFalse() || onpath[pc] {
			return
		}
		ins := &prog.Inst[pc]
		onpath[pc] = true
		switch ins.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			addS(set, ins.Out, g, pos, onpath)
			addS(set, ins.Arg, g, pos, onpath)
		case syntax.InstCapture, syntax.InstNop:
			addS(set, ins.Out, g, pos, onpath)
		case syntax.InstEmptyWidth:
			addS(set, ins.Out, c.And(g, cond(syntax.EmptyOp(ins.Arg), pos)), pos, onpath)
		case syntax.InstMatch:
			matched = c.Or(matched, g)
		case syntax.InstFail:
		default:
			if o, ok := set[pc]; ok {
				g = c.Or(o, g)
			}
			set[pc] = g
		}
		delete(onpath, pc)
	}
	for pos := 0; pos <= n; pos++ {
		addS(cur, uint32(prog.Start), c.tt, pos, map[uint32]bool{})
		if pos == n {
			break
		}
		next := map[uint32]*E{}
		b := byteE(pos)
		// deterministic order
		for pc := uint32(0); int(pc) < len(prog.Inst); pc++ {
			g, ok := cur[pc]
			if !ok {
				continue
			}
			ins := &prog.Inst[pc]
			m := c.ff
			for r := 0; r < 128; r++ {
				if ins.MatchRune(rune(r)) {
					// group runs
					lo := r
					for r+1 < 128 && ins.MatchRune(rune(r+1)) {
						r++
					}
					if lo == r {
						m = c.Or(m, c.Eq(b, c.BV(uint64(lo), 8)))
					} else {
						m = c.Or(m, c.And(c.Bin(OULe, c.BV(uint64(lo), 8), b), c.Bin(OULe, b, c.BV(uint64(r), 8))))
					}
				}
			}
			addS(next, ins.Out, c.And(g, m), pos+1, map[uint32]bool{})
		}
		cur = next
	}
	return in.mkb(matched)
}
