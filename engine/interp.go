package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type undo struct {
	p   *Value
	old Value
	fn  func()
}

type Interp struct {
	prog      *ssa.Program
	c         *Ctx
	s         *Solver
	globals   map[*ssa.Global]*Value
	fns       map[*ssa.Function]*fnInfo
	canonM    typeutil.Map
	canonC    map[types.Type]types.Type
	method    map[methKey]*ssa.Function
	journal   []undo
	logging   bool
	steps     int64
	total     int64
	depth     int
	p         *Path
	eng       *Engine
	intr      map[string]intrinsic
	sizes     types.Sizes
	rtErrT    types.Type
	covered   map[*ssa.Function]bool
	cur       *frame
	atoms     map[string]uint64
	hasher    typeutil.Hasher
	trueTypes map[string]types.Type
	dbg       bool
	scratch   map[string]any
	typeReg   map[string]types.Type
}

type methKey struct {
	t types.Type
	n string
	p *types.Package
}

type intrinsic func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value

type targetPanic struct {
	v     Value // Iface
	trace string
}

type pathEnd struct{ reason string }
type unsupported struct{ msg string }

type frame struct {
	fi        *fnInfo
	regs      []Value
	caller    *frame
	block     *blk
	prev      int
	defers    []func()
	result    Value
	panicking bool
	panicV    *targetPanic
	recovered bool
	status    int
	curInstr  ssa.Instruction
}

type blk struct {
	idx   int
	phis  [][]phiMove // per predecessor
	steps []func(fr *frame)
	term  func(fr *frame) // sets fr.block or status
	preds []int
	srcs  []ssa.Instruction
}
type phiMove struct {
	dst int
	src operand
}

type operand struct {
	reg int
	c   Value
}

type fnInfo struct {
	fn       *ssa.Function
	nregs    int
	blocks   []*blk
	regOf    map[ssa.Value]int
	recover  *blk
	hasDefer bool
	intr     intrinsic
	checked  bool
	params   int
}

func (in *Interp) set(p *Value, v Value) {
	if in.logging {
		in.journal = append(in.journal, undo{p: p, old: *p})
	}
	*p = v
}

func (in *Interp) logUndo(f func()) {
	if in.logging {
		in.journal = append(in.journal, undo{fn: f})
	}
}

func (in *Interp) rollback() {
	for i := len(in.journal) - 1; i >= 0; i-- {
		u := &in.journal[i]
		if u.fn != nil {
			u.fn()
		} else {
			*u.p = u.old
		}
	}
	in.journal = in.journal[:0]
}

func (in *Interp) store(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		dst, ok := (*p).(Struct)
		if !ok || len(dst) != len(v) {
			in.set(p, copyVal(v))
			return
		}
		for i := range v {
			in.store(&dst[i], v[i])
		}
	case Array:
		dst, ok := (*p).(Array)
		if !ok || len(dst) != len(v) {
			in.set(p, copyVal(v))
			return
		}
		for i := range v {
			in.store(&dst[i], v[i])
		}
	default:
		in.set(p, v)
	}
}

func (in *Interp) canon(t types.Type) types.Type {
	if c, ok := in.canonC[t]; ok {
		return c
	}
	if v := in.canonM.At(t); v != nil {
		in.canonC[t] = v.(types.Type)
		return v.(types.Type)
	}
	in.canonM.Set(t, t)
	in.canonC[t] = t
	return t
}

func (in *Interp) typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (in *Interp) rtPanic(msg string) {
	var t types.Type = in.rtErrT
	panic(&targetPanic{v: Iface{t: t, v: msg}, trace: in.stack()})
}

func (in *Interp) stack() string {
	var sb strings.Builder
	n := 0
	for f := in.cur; f != nil && n < 30; f = f.caller {
		pos := ""
		if f.curInstr != nil && f.curInstr.Pos().IsValid() {
			p := in.prog.Fset.Position(f.curInstr.Pos())
			pos = fmt.Sprintf(" %s:%d", p.Filename, p.Line)
		}
		sb.WriteString("  " + f.fi.fn.String() + pos + "\n")
		n++
	}
	return sb.String()
}

func (in *Interp) unsup(f string, a ...any) {
	panic(&unsupported{fmt.Sprintf(f, a...)})
}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	fi := in.fns[fn]
	if fi == nil {
		fi = &fnInfo{fn: fn}
		in.fns[fn] = fi
		name := fn.String()
		if fn.Origin() != nil {
			name = fn.Origin().String()
		}
		if f, ok := in.intr[name]; ok {
			fi.intr = f
		} else if strings.HasPrefix(fn.Name(), "nd") || strings.HasPrefix(fn.Name(), "v") {
			if fn.Pkg != nil && fn.Pkg.Pkg.Path() == ramlPath && fn.Parent() == nil && fn.Signature.Recv() == nil {
				if f, ok := in.intr["harness."+fn.Name()]; ok {
					fi.intr = f
				}
			}
		}
	}
	return fi
}

const ramlPath = "github.com/acronis/go-raml/v2"

func (in *Interp) callFn(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := in.info(fn)
	if fi.intr != nil {
		if r := fi.intr(in, caller, fn, args); r != (fallthru{}) {
			return r
		}
	}
	if !fi.checked {
		if fn.Blocks == nil {
			if fn.Pkg != nil {
				fn.Pkg.Build()
			}
			if fn.Blocks == nil && fn.Origin() != nil && fn.Origin().Pkg != nil {
				fn.Origin().Pkg.Build()
			}
		}
		if fn.Blocks == nil {
			in.unsup("external function %s", fn.String())
		}
		in.compile(fi)
		fi.checked = true
	}
	in.depth++
	if in.depth > in.eng.maxDepth {
		in.depth = 0
		panic(&pathEnd{"depth"})
	}
	fr := &frame{fi: fi, caller: caller}
	fr.regs = make([]Value, fi.nregs)
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	prevCur := in.cur
	in.cur = fr
	if in.p != nil && in.p.cover != nil {
		in.covered[fn] = true
	}
	fr.block = fi.blocks[0]
	fr.prev = -1
	if fi.hasDefer {
		in.runDefer(fr)
	} else {
		in.runBlocks(fr)
	}
	in.cur = prevCur
	in.depth--
	return fr.result
}

func (in *Interp) runDefer(fr *frame) {
	depth := in.depth
	func() {
		defer func() {
			if fr.status == 1 {
				return
			}
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			in.depth = depth
			in.cur = fr
			fr.panicking = true
			fr.panicV = tp
			in.runDefers(fr)
			// recovered
		}()
		in.runBlocks(fr)
	}()
	if fr.panicV != nil {
		// recovered: run the recover block, or return zero results
		fr.panicV = nil
		if fr.fi.recover != nil {
			fr.status = 0
			fr.block = fr.fi.recover
			fr.prev = -1
			in.cur = fr
			in.runBlocks(fr)
		} else {
			sig := fr.fi.fn.Signature
			if sig.Results().Len() > 0 {
				fr.result = zero(sig.Results())
			} else {
				fr.result = nil
			}
		}
	}
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			depth := in.depth
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					in.depth = depth
					in.cur = fr
					fr.panicking = true
					fr.panicV = tp
				}
			}()
			d()
		}()
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (in *Interp) runBlocks(fr *frame) {
	for {
		b := fr.block
		if fr.prev >= 0 && len(b.phis) > 0 {
			var pi int
			for i, p := range b.preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			mv := b.phis[pi]
			if len(mv) == 1 {
				fr.regs[mv[0].dst] = fr.get(mv[0].src)
			} else {
				var tmp [16]Value
				t := tmp[:0]
				for i := range mv {
					t = append(t, fr.get(mv[i].src))
				}
				for i := range mv {
					fr.regs[mv[i].dst] = t[i]
				}
			}
		}
		in.steps += int64(len(b.steps) + 1)
		if hotOn {
			hotMu.Lock()
			hot[b.srcs0(fr)] += len(b.steps) + 1
			hotMu.Unlock()
		}
		if in.steps > in.eng.maxSteps || in.steps > 300_000 && in.eng.memFull.Load() {
			panic(&pathEnd{"steps"})
		}
		for i, s := range b.steps {
			fr.curInstr = b.srcs[i]
			s(fr)
		}
		fr.prev = b.idx
		b.term(fr)
		if fr.status == 1 {
			return
		}
	}
}

func (fr *frame) get(o operand) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	return o.c
}

func (in *Interp) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch k := kindOf(t); k.k {
	case 'b':
		return constant.BoolVal(c.Value)
	case 'i':
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return uint64(i) & mask(k.w)
		}
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return u & mask(k.w)
	case 'f':
		f, _ := constant.Float64Val(c.Value)
		if k.w == 32 {
			f = float64(float32(f))
		}
		return f
	case 's':
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	}
	if types.IsInterface(t) {
		in.unsup("const of interface type")
	}
	return (*Value)(nil)
}

func (in *Interp) operand(fi *fnInfo, v ssa.Value) operand {
	switch v := v.(type) {
	case *ssa.Const:
		return operand{-1, in.constVal(v)}
	case *ssa.Global:
		return operand{-1, in.global(v)}
	case *ssa.Function:
		return operand{-1, &Closure{fn: v}}
	case *ssa.Builtin:
		return operand{-1, v}
	}
	r, ok := fi.regOf[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v.Name(), fi.fn))
	}
	return operand{r, nil}
}

func (in *Interp) global(g *ssa.Global) *Value {
	p := in.globals[g]
	if p == nil {
		var v Value = zero(g.Type().(*types.Pointer).Elem())
		p = &v
		in.globals[g] = p
	}
	return p
}

func (in *Interp) compile(fi *fnInfo) {
	fn := fi.fn
	fi.regOf = map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		fi.regOf[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		fi.regOf[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				fi.regOf[v] = n
				n++
			}
			if _, ok := i.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		fi.hasDefer = true
	}
	fi.nregs = n
	fi.blocks = make([]*blk, len(fn.Blocks))
	for i := range fn.Blocks {
		fi.blocks[i] = &blk{idx: i}
	}
	for i, b := range fn.Blocks {
		cb := fi.blocks[i]
		for _, p := range b.Preds {
			cb.preds = append(cb.preds, p.Index)
		}
		var phis []*ssa.Phi
		for _, ins := range b.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok {
				phis = append(phis, ph)
				continue
			}
			switch ins := ins.(type) {
			case *ssa.If:
				c := in.operand(fi, ins.Cond)
				t, f := fi.blocks[b.Succs[0].Index], fi.blocks[b.Succs[1].Index]
				ins2 := ins
				cb.term = func(fr *frame) {
					var ok bool
					switch v := fr.get(c).(type) {
					case bool:
						ok = v
					case *E:
						fr.curInstr = ins2
						ok = in.branch(v)
					default:
						panic(fmt.Sprintf("if on %T", v))
					}
					if ok {
						fr.block = t
					} else {
						fr.block = f
					}
				}
			case *ssa.Jump:
				t := fi.blocks[b.Succs[0].Index]
				cb.term = func(fr *frame) { fr.block = t }
			case *ssa.Return:
				var ops []operand
				for _, r := range ins.Results {
					ops = append(ops, in.operand(fi, r))
				}
				switch len(ops) {
				case 0:
					cb.term = func(fr *frame) { fr.status = 1 }
				case 1:
					cb.term = func(fr *frame) { fr.result = fr.get(ops[0]); fr.status = 1 }
				default:
					cb.term = func(fr *frame) {
						t := make(Tuple, len(ops))
						for i, o := range ops {
							t[i] = fr.get(o)
						}
						fr.result = t
						fr.status = 1
					}
				}
			case *ssa.Panic:
				o := in.operand(fi, ins.X)
				ins2 := ins
				cb.term = func(fr *frame) {
					fr.curInstr = ins2
					v := fr.get(o)
					if v.(Iface).t == nil {
						in.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
					}
					panic(&targetPanic{v: v, trace: in.stack()})
				}
			default:
				if s := in.instr(fi, ins); s != nil {
					cb.steps = append(cb.steps, s)
					cb.srcs = append(cb.srcs, ins)
				}
			}
		}
		if len(phis) > 0 {
			cb.phis = make([][]phiMove, len(b.Preds))
			for pi := range b.Preds {
				for _, ph := range phis {
					cb.phis[pi] = append(cb.phis[pi], phiMove{fi.regOf[ph], in.operand(fi, ph.Edges[pi])})
				}
			}
		}
		if cb.term == nil {
			fnn := fn
			cb.term = func(fr *frame) { in.unsup("block without terminator in %s", fnn) }
		}
	}
	if fn.Recover != nil {
		fi.recover = fi.blocks[fn.Recover.Index]
	}
}

func deref(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func (in *Interp) nilCheck(p Value) *Value {
	pp, ok := p.(*Value)
	if !ok {
		in.unsup("pointer is %T", p)
	}
	if pp == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	return pp
}

func (in *Interp) instr(fi *fnInfo, ins ssa.Instruction) func(fr *frame) {
	op := func(v ssa.Value) operand { return in.operand(fi, v) }
	dst := -1
	if v, ok := ins.(ssa.Value); ok {
		dst = fi.regOf[v]
	}
	switch ins := ins.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		t := deref(ins.Type())
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			return func(fr *frame) {
				p := new(Value)
				*p = zero(t)
				fr.regs[dst] = p
			}
		}
		z := zero(t)
		return func(fr *frame) {
			p := new(Value)
			*p = z
			fr.regs[dst] = p
		}
	case *ssa.Store:
		a, v := op(ins.Addr), op(ins.Val)
		return func(fr *frame) {
			in.store(in.nilCheck(fr.get(a)), fr.get(v))
		}
	case *ssa.UnOp:
		x := op(ins.X)
		if ins.Op == token.MUL {
			if _, ok := ins.X.(*ssa.Global); ok {
				p := x.c.(*Value)
				return func(fr *frame) { fr.regs[dst] = copyVal(*p) }
			}
			return func(fr *frame) { fr.regs[dst] = copyVal(*in.nilCheck(fr.get(x))) }
		}
		o, k := ins.Op, kindOf(ins.X.Type())
		commaok := ins.CommaOk
		return func(fr *frame) { fr.regs[dst] = in.unop(o, k, fr.get(x), commaok) }
	case *ssa.BinOp:
		x, y := op(ins.X), op(ins.Y)
		o, t, k := ins.Op, ins.X.Type(), kindOf(ins.X.Type())
		ky := kindOf(ins.Y.Type())
		return func(fr *frame) { fr.regs[dst] = in.binop(o, t, k, ky, fr.get(x), fr.get(y)) }
	case *ssa.FieldAddr:
		x, f := op(ins.X), ins.Field
		return func(fr *frame) {
			p := in.nilCheck(fr.get(x))
			s, ok := (*p).(Struct)
			if !ok {
				in.unsup("field address of %T in %s", *p, fi.fn)
			}
			fr.regs[dst] = &s[f]
		}
	case *ssa.Field:
		x, f := op(ins.X), ins.Field
		return func(fr *frame) { fr.regs[dst] = fr.get(x).(Struct)[f] }
	case *ssa.IndexAddr:
		x, i := op(ins.X), op(ins.Index)
		isPtr := false
		if _, ok := ins.X.Type().Underlying().(*types.Pointer); ok {
			isPtr = true
		}
		ik := kindOf(ins.Index.Type())
		constTable, tw := in.constTable(ins.X), kindOf(deref(ins.Type())).w
		return func(fr *frame) {
			var a []Value
			if isPtr {
				p := in.nilCheck(fr.get(x))
				a = (*p).(Array)
			} else {
				a = fr.get(x).(Slice)
			}
			iv := fr.get(i)
			if constTable {
				if e, ok := iv.(*E); ok && len(a) > 0 {
					if r, ok := in.tableLookup(in.boundIdx(e, ik, len(a)), a, tw); ok {
						fr.regs[dst] = r
						return
					}
				}
			}
			n := in.index(iv, ik, len(a))
			fr.regs[dst] = &a[n]
		}
	case *ssa.Index:
		x, i := op(ins.X), op(ins.Index)
		ik := kindOf(ins.Index.Type())
		return func(fr *frame) {
			v := fr.get(x)
			if a, ok := v.(Array); ok {
				fr.regs[dst] = a[in.index(fr.get(i), ik, len(a))]
				return
			}
			fr.regs[dst] = in.strIndex(v, fr.get(i), ik)
		}
	case *ssa.Lookup:
		x, i := op(ins.X), op(ins.Index)
		if mt, ok := ins.X.Type().Underlying().(*types.Map); ok {
			z := zero(mt.Elem())
			commaok := ins.CommaOk
			kt := mt.Key()
			return func(fr *frame) {
				m := fr.get(x).(*Map)
				v, found := in.mapGet(m, kt, fr.get(i))
				if !found {
					v = copyVal(z)
				}
				if commaok {
					fr.regs[dst] = Tuple{copyVal(v), found}
				} else {
					fr.regs[dst] = copyVal(v)
				}
			}
		}
		ik := kindOf(ins.Index.Type())
		return func(fr *frame) { fr.regs[dst] = in.strIndex(fr.get(x), fr.get(i), ik) }
	case *ssa.MapUpdate:
		m, k, v := op(ins.Map), op(ins.Key), op(ins.Value)
		kt := ins.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) {
			mm := fr.get(m).(*Map)
			if mm == nil {
				in.rtPanic("assignment to entry in nil map")
			}
			in.mapSet(mm, kt, fr.get(k), fr.get(v))
		}
	case *ssa.MakeMap:
		return func(fr *frame) { fr.regs[dst] = newMap() }
	case *ssa.MakeSlice:
		l, c := op(ins.Len), op(ins.Cap)
		et := ins.Type().Underlying().(*types.Slice).Elem()
		lk := kindOf(ins.Len.Type())
		ck := kindOf(ins.Cap.Type())
		return func(fr *frame) {
			ln := sext(in.concInt(fr.get(l), lk.w), lk.w)
			cp := sext(in.concInt(fr.get(c), ck.w), ck.w)
			if ln < 0 || ln > 1<<28 {
				in.rtPanic("makeslice: len out of range")
			}
			if cp < ln || cp > 1<<28 {
				in.rtPanic("makeslice: cap out of range")
			}
			s := make(Slice, cp)
			z := zero(et)
			for i := range s {
				s[i] = copyVal(z)
			}
			fr.regs[dst] = s[:ln]
		}
	case *ssa.MakeInterface:
		x, t := op(ins.X), ins.X.Type()
		return func(fr *frame) { fr.regs[dst] = Iface{t, fr.get(x)} }
	case *ssa.MakeClosure:
		f := ins.Fn.(*ssa.Function)
		var ops []operand
		for _, b := range ins.Bindings {
			ops = append(ops, op(b))
		}
		return func(fr *frame) {
			env := make([]Value, len(ops))
			for i, o := range ops {
				env[i] = fr.get(o)
			}
			fr.regs[dst] = &Closure{fn: f, env: env}
		}
	case *ssa.MakeChan:
		return func(fr *frame) { fr.regs[dst] = &Native{kind: "chan"} }
	case *ssa.ChangeType:
		x := op(ins.X)
		return func(fr *frame) { fr.regs[dst] = fr.get(x) }
	case *ssa.ChangeInterface:
		x := op(ins.X)
		return func(fr *frame) { fr.regs[dst] = fr.get(x) }
	case *ssa.Convert:
		x, ft, tt := op(ins.X), ins.X.Type(), ins.Type()
		return func(fr *frame) { fr.regs[dst] = in.conv(tt, ft, fr.get(x)) }
	case *ssa.MultiConvert:
		x, ft, tt := op(ins.X), ins.X.Type(), ins.Type()
		return func(fr *frame) { fr.regs[dst] = in.conv(tt, ft, fr.get(x)) }
	case *ssa.SliceToArrayPointer:
		x := op(ins.X)
		n := int(deref(ins.Type()).Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := fr.get(x).(Slice)
			if len(s) < n {
				in.rtPanic("slice to array pointer: length")
			}
			var v Value = Array(s[:n])
			fr.regs[dst] = &v
		}
	case *ssa.Slice:
		x := op(ins.X)
		var lo, hi, mx operand
		has := [3]bool{ins.Low != nil, ins.High != nil, ins.Max != nil}
		var ks [3]kind
		if has[0] {
			lo = op(ins.Low)
			ks[0] = kindOf(ins.Low.Type())
		}
		if has[1] {
			hi = op(ins.High)
			ks[1] = kindOf(ins.High.Type())
		}
		if has[2] {
			mx = op(ins.Max)
			ks[2] = kindOf(ins.Max.Type())
		}
		return func(fr *frame) {
			var l, h, m Value
			if has[0] {
				l = fr.get(lo)
			}
			if has[1] {
				h = fr.get(hi)
			}
			if has[2] {
				m = fr.get(mx)
			}
			fr.regs[dst] = in.slice(fr.get(x), l, h, m, ks)
		}
	case *ssa.TypeAssert:
		x, t, commaok := op(ins.X), ins.AssertedType, ins.CommaOk
		return func(fr *frame) { fr.regs[dst] = in.typeAssert(fr.get(x).(Iface), t, commaok) }
	case *ssa.Extract:
		x, i := op(ins.Tuple), ins.Index
		return func(fr *frame) { fr.regs[dst] = fr.get(x).(Tuple)[i] }
	case *ssa.Range:
		x := op(ins.X)
		fn := fi.fn
		return func(fr *frame) { fr.regs[dst] = in.rangeIter(fr.get(x), fn) }
	case *ssa.Next:
		x := op(ins.Iter)
		isStr := ins.IsString
		var tt *types.Tuple = ins.Type().(*types.Tuple)
		return func(fr *frame) { fr.regs[dst] = in.next(fr.get(x).(*Iter), isStr, tt) }
	case *ssa.Call:
		f := in.call(fi, &ins.Call)
		return func(fr *frame) { fr.regs[dst] = f(fr) }
	case *ssa.Defer:
		f := in.prepCall(fi, &ins.Call)
		return func(fr *frame) {
			c := f(fr)
			d := func() { c() }
			fr.defers = append(fr.defers, d)
		}
	case *ssa.RunDefers:
		return func(fr *frame) { in.runDefers(fr) }
	case *ssa.Go:
		return func(fr *frame) { in.unsup("go statement in %s", fi.fn) }
	case *ssa.Send, *ssa.Select:
		return func(fr *frame) { in.unsup("channel op in %s", fi.fn) }
	}
	return func(fr *frame) { in.unsup("instruction %T in %s", ins, fi.fn) }
}

func (in *Interp) call(fi *fnInfo, c *ssa.CallCommon) func(fr *frame) Value {
	if !c.IsInvoke() {
		if f, ok := c.Value.(*ssa.Function); ok {
			ops := make([]operand, len(c.Args))
			for i, a := range c.Args {
				ops[i] = in.operand(fi, a)
			}
			return func(fr *frame) Value {
				args := make([]Value, len(ops))
				for i, o := range ops {
					args[i] = fr.get(o)
				}
				return in.callFn(fr, f, args, nil)
			}
		}
	}
	p := in.prepCall(fi, c)
	return func(fr *frame) Value { return p(fr)() }
}

// prepCall evaluates function and arguments, returning a thunk that performs the call.
func (in *Interp) prepCall(fi *fnInfo, c *ssa.CallCommon) func(fr *frame) func() Value {
	ops := make([]operand, len(c.Args))
	for i, a := range c.Args {
		ops[i] = in.operand(fi, a)
	}
	v := in.operand(fi, c.Value)
	if c.IsInvoke() {
		m := c.Method
		return func(fr *frame) func() Value {
			recv := fr.get(v).(Iface)
			args := make([]Value, 1, len(ops)+1)
			for _, o := range ops {
				args = append(args, fr.get(o))
			}
			return func() Value {
				if recv.t == nil {
					in.rtPanic("invalid memory address or nil pointer dereference")
				}
				f := in.lookupMethod(recv.t, m.Pkg(), m.Name())
				if f == nil {
					in.unsup("no method %s on %s", m.Name(), recv.t)
				}
				args[0] = recv.v
				return in.callFn(fr, f, args, nil)
			}
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var ats []types.Type
		for _, a := range c.Args {
			ats = append(ats, a.Type())
		}
		var rt types.Type = c.Signature().Results()
		return func(fr *frame) func() Value {
			args := make([]Value, 0, len(ops))
			for _, o := range ops {
				args = append(args, fr.get(o))
			}
			return func() Value { return in.builtin(fr, b.Name(), args, ats, rt) }
		}
	}
	return func(fr *frame) func() Value {
		f := fr.get(v).(*Closure)
		args := make([]Value, 0, len(ops))
		for _, o := range ops {
			args = append(args, fr.get(o))
		}
		return func() Value { return in.callClosure(fr, f, args) }
	}
}

func (in *Interp) callClosure(fr *frame, f *Closure, args []Value) Value {
	if f == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	if f.native != nil {
		return f.native(in, args)
	}
	return in.callFn(fr, f.fn, args, f.env)
}

func (in *Interp) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methKey{in.canon(t), name, nil}
	if !token.IsExported(name) {
		k.p = pkg
	}
	if f, ok := in.method[k]; ok {
		return f
	}
	ms := in.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	var f *ssa.Function
	if sel != nil {
		in.eng.ssaMu.Lock()
		f = in.prog.MethodValue(sel)
		in.eng.ssaMu.Unlock()
	}
	in.method[k] = f
	return f
}

func (in *Interp) index(i Value, k kind, n int) int {
	if u, ok := i.(uint64); ok {
		s := sext(u, k.w)
		if !k.signed {
			if u >= uint64(n) {
				in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", u, n))
			}
			return int(u)
		}
		if s < 0 || s >= int64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", s, n))
		}
		return int(s)
	}
	e := in.c.Resize(i.(*E), 64, k.signed)
	if !in.branch(in.c.Bin(OULt, e, in.c.BV(uint64(n), 64))) {
		in.rtPanic(fmt.Sprintf("index out of range [sym] with length %d", n))
	}
	return int(in.concInt(e, 64))
}

// constTable: a package-level table of a package outside the code under test (never written after init).
func (in *Interp) constTable(x ssa.Value) bool {
	if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
		x = u.X
	}
	g, ok := x.(*ssa.Global)
	return ok && g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), "github.com/")
}

func (in *Interp) boundIdx(i *E, k kind, n int) *E {
	e := in.c.Resize(i, 64, k.signed)
	if !in.branch(in.c.Bin(OULt, e, in.c.BV(uint64(n), 64))) {
		in.rtPanic(fmt.Sprintf("index out of range [sym] with length %d", n))
	}
	return e
}

// tableLookup reads a constant table at a symbolic (in-range) index: an if-then-else over runs of
// equal entries when the entries are integers, a fork per distinct entry otherwise.
func (in *Interp) tableLookup(e *E, a []Value, w int) (*Value, bool) {
	type run struct {
		from, to int
		key      any
	}
	var runs []run
	for i, x := range a {
		k, ok := in.hashKey(x)
		if !ok {
			return nil, false
		}
		if n := len(runs); n > 0 && runs[n-1].key == k {
			runs[n-1].to = i
		} else {
			runs = append(runs, run{i, i, k})
		}
	}
	c := in.c
	inRun := func(r run) *E {
		lo := c.Bin(OULe, c.BV(uint64(r.from), 64), e)
		hi := c.Bin(OULe, e, c.BV(uint64(r.to), 64))
		return c.And(lo, hi)
	}
	if _, ok := a[0].(uint64); ok && len(runs) <= 48 {
		res := c.BV(a[runs[len(runs)-1].from].(uint64), w)
		for i := len(runs) - 2; i >= 0; i-- {
			res = c.Ite(inRun(runs[i]), c.BV(a[runs[i].from].(uint64), w), res)
		}
		v := exprVal(res)
		return &v, true
	}
	var keys []any
	conds := map[any]*E{}
	rep := map[any]int{}
	for _, r := range runs {
		if _, ok := conds[r.key]; !ok {
			keys = append(keys, r.key)
			conds[r.key] = inRun(r)
			rep[r.key] = r.from
		} else {
			conds[r.key] = c.Or(conds[r.key], inRun(r))
		}
	}
	if len(keys) > 24 {
		return nil, false
	}
	for i, k := range keys {
		if i == len(keys)-1 || in.branch(conds[k]) {
			return &a[rep[k]], true
		}
	}
	return nil, false
}

func exprVal(e *E) Value {
	if e.op == OConst {
		return e.val
	}
	return e
}

func (in *Interp) strIndex(v, i Value, k kind) Value {
	if c, ok := v.(*Cat); ok {
		if r, ok := in.catIndex(c, i, k); ok {
			return r
		}
	}
	if r, ok := in.opaqueIndex(v, i, k); ok {
		return r
	}
	n, ok := strLen(v)
	if !ok {
		v = in.concStr(v)
		n = len(v.(string))
	}
	if s, ok := v.(string); ok {
		if e, sym := i.(*E); sym && n > 0 {
			el := make([]Value, n)
			for j := range el {
				el[j] = uint64(s[j])
			}
			if r, ok := in.tableLookup(in.boundIdx(e, k, n), el, 8); ok {
				return *r
			}
		}
	}
	x := in.index(i, k, n)
	switch v := v.(type) {
	case string:
		return uint64(v[x])
	case *SStr:
		return v.b[x]
	}
	panic("strIndex")
}

func (in *Interp) slice(x, lo, hi, mx Value, ks [3]kind) Value {
	var n, c int
	var arr []Value
	isStr := false
	switch v := x.(type) {
	case Slice:
		arr, n, c = v, len(v), cap(v)
	case *Value:
		p := in.nilCheck(v)
		a := (*p).(Array)
		arr, n, c = a, len(a), len(a)
	default:
		isStr = true
		var ok bool
		n, ok = strLen(x)
		if !ok {
			if (lo == nil || lo == uint64(0)) && hi == nil {
				return x
			}
			x = in.concStr(x)
			n = len(x.(string))
		}
		c = n
	}
	get := func(v Value, k kind, def int) int64 {
		if v == nil {
			return int64(def)
		}
		if u, ok := v.(uint64); ok {
			return sext(u, k.w)
		}
		e := in.c.Resize(v.(*E), 64, k.signed)
		if !in.branch(in.c.Bin(OULe, e, in.c.BV(uint64(c), 64))) {
			return -1
		}
		return sext(in.concInt(e, 64), 64)
	}
	l := get(lo, ks[0], 0)
	h := get(hi, ks[1], n)
	m := get(mx, ks[2], c)
	if l < 0 || h < l || m < h || m > int64(c) {
		in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, c))
	}
	if isStr {
		switch v := x.(type) {
		case string:
			return v[l:h]
		case *SStr:
			return mkStr(v.b[l:h])
		}
	}
	if s, ok := x.(Slice); ok && s == nil {
		return s
	}
	return Slice(arr[l:h:m])
}

func (in *Interp) implements(t types.Type, it *types.Interface) bool {
	k := methKey{in.canon(t), "", nil}
	_ = k
	m := in.scratchImpl()
	kk := [2]types.Type{in.canon(t), it}
	if r, ok := m[kk]; ok {
		return r
	}
	r := types.Implements(t, it)
	m[kk] = r
	return r
}

func (in *Interp) scratchImpl() map[[2]types.Type]bool {
	m, _ := in.scratch["impl"].(map[[2]types.Type]bool)
	if m == nil {
		m = map[[2]types.Type]bool{}
		in.scratch["impl"] = m
	}
	return m
}

func (in *Interp) typeAssert(x Iface, t types.Type, commaok bool) Value {
	ok := false
	var v Value
	if it, isI := t.Underlying().(*types.Interface); isI {
		if x.t != nil && in.implements(x.t, it) {
			ok = true
			v = x
		} else {
			v = Iface{}
		}
	} else if x.t != nil && in.canon(x.t) == in.canon(t) {
		ok = true
		v = x.v
	} else {
		v = zero(t)
	}
	if commaok {
		return Tuple{v, ok}
	}
	if !ok {
		have := "nil"
		if x.t != nil {
			have = in.typeString(x.t)
		}
		in.rtPanic("interface conversion: interface {} is " + have + ", not " + in.typeString(t))
	}
	return v
}

// ---- maps ----

func newMap() *Map { return &Map{index: map[any]*mapEnt{}} }

// mapFind returns the entry for key, forking on symbolic key equality.
func (in *Interp) mapFind(m *Map, kt types.Type, k Value) *mapEnt {
	hk, ok := in.hashKey(k)
	if ok {
		if e := m.index[hk]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			if _, conc := in.hashKey(e.k); conc {
				continue
			}
			if in.truth(in.eqVal(kt, e.k, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if in.truth(in.eqVal(kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapGet(m *Map, kt types.Type, k Value) (Value, bool) {
	if m == nil {
		in.hashKey(k)
		return nil, false
	}
	e := in.mapFind(m, kt, k)
	if e == nil {
		return nil, false
	}
	return e.v, true
}

func (in *Interp) mapSet(m *Map, kt types.Type, k, v Value) {
	if e := in.mapFind(m, kt, k); e != nil {
		old := e.v
		in.logUndo(func() { e.v = old })
		e.v = copyVal(v)
		return
	}
	e := &mapEnt{k: copyVal(k), v: copyVal(v)}
	hk, ok := in.hashKey(k)
	n := len(m.ents)
	oldEnts := m.ents
	m.ents = append(m.ents[:n:n], e)
	m.n++
	if ok {
		m.index[hk] = e
	} else {
		m.nsym++
	}
	in.logUndo(func() {
		m.ents = oldEnts
		m.n--
		if ok {
			delete(m.index, hk)
		} else {
			m.nsym--
		}
	})
}

func (in *Interp) mapDelete(m *Map, kt types.Type, k Value) {
	if m == nil {
		return
	}
	e := in.mapFind(m, kt, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	hk, ok := in.hashKey(e.k)
	if ok {
		delete(m.index, hk)
	} else {
		m.nsym--
	}
	in.logUndo(func() {
		e.dead = false
		m.n++
		if ok {
			m.index[hk] = e
		} else {
			m.nsym++
		}
	})
}

type Iter struct {
	m     *Map
	todo  []*mapEnt
	i     int
	order bool
	s     Value
	pos   int
	pend  *mapEnt
}

func (in *Interp) rangeIter(x Value, fn *ssa.Function) *Iter {
	if m, ok := x.(*Map); ok {
		it := &Iter{m: m}
		if m != nil {
			for _, e := range m.ents {
				if !e.dead {
					it.todo = append(it.todo, e)
				}
			}
			if in.p != nil && in.p.mapOrder && len(it.todo) > 1 && inScope(fn) {
				it.order = true
			}
		}
		return it
	}
	if m, ok := x.(*Native); ok {
		in.unsup("range over native %s", m.kind)
	}
	if _, ok := strLen(x); !ok {
		x = in.concStr(x)
	}
	return &Iter{s: x}
}

func inScope(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg == nil {
		return false
	}
	if !strings.HasPrefix(fn.Pkg.Pkg.Path(), ramlPath) {
		return false
	}
	f := fn.Prog.Fset.Position(fn.Pos()).Filename
	return !strings.Contains(f, "zz_verif")
}

func (in *Interp) next(it *Iter, isStr bool, tt *types.Tuple) Value {
	if !isStr {
		for len(it.todo) > 0 {
			i := 0
			if it.order {
				// drop dead entries first so that choices are meaningful
				live := it.todo[:0:0]
				for _, e := range it.todo {
					if !e.dead {
						live = append(live, e)
					}
				}
				it.todo = live
				if len(live) == 0 {
					break
				}
				if len(live) > 1 {
					i = in.choose(len(live), "maporder")
				}
			}
			e := it.todo[i]
			rest := make([]*mapEnt, 0, len(it.todo)-1)
			rest = append(rest, it.todo[:i]...)
			rest = append(rest, it.todo[i+1:]...)
			it.todo = rest
			if e.dead {
				continue
			}
			return Tuple{true, copyVal(e.k), copyVal(e.v)}
		}
		var kz, vz Value
		if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			kz = zero(tt.At(1).Type())
		}
		if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			vz = zero(tt.At(2).Type())
		}
		return Tuple{false, kz, vz}
	}
	n, _ := strLen(it.s)
	if it.pos >= n {
		return Tuple{false, uint64(0), uint64(0)}
	}
	pos := it.pos
	if s, ok := it.s.(string); ok {
		r, w := decodeRune(s[pos:])
		it.pos += w
		return Tuple{true, uint64(pos), uint64(uint32(r))}
	}
	ss := it.s.(*SStr)
	b := ss.b[pos]
	if in.truth(in.mkb(in.c.Bin(OULt, in.intE(b, 8), in.c.BV(0x80, 8)))) {
		it.pos++
		return Tuple{true, uint64(pos), in.resizeV(b, 8, 32, false)}
	}
	r := in.callByName("unicode/utf8", "DecodeRuneInString", []Value{mkStr(ss.b[pos:])}).(Tuple)
	it.pos += int(in.concInt(r[1], 64))
	return Tuple{true, uint64(pos), r[0]}
}

func decodeRune(s string) (rune, int) { return utf8.DecodeRuneInString(s) }

func (in *Interp) resizeV(v Value, from, to int, signed bool) Value {
	if u, ok := v.(uint64); ok {
		if signed {
			return uint64(sext(u, from)) & mask(to)
		}
		return u & mask(to)
	}
	return in.mk(in.c.Resize(v.(*E), to, signed))
}

func (in *Interp) callByName(pkg, name string, args []Value) Value {
	p := in.prog.ImportedPackage(pkg)
	if p == nil {
		in.unsup("package %s not loaded", pkg)
	}
	f := p.Func(name)
	if f == nil {
		in.unsup("function %s.%s not found", pkg, name)
	}
	return in.callFn(in.cur, f, args, nil)
}

// ---- operators ----

func (in *Interp) unop(o token.Token, k kind, x Value, commaok bool) Value {
	switch o {
	case token.NOT:
		return in.notV(x)
	case token.SUB:
		switch v := x.(type) {
		case uint64:
			return (-v) & mask(k.w)
		case float64:
			return -v
		case *E:
			if v.sort == FPSort {
				return in.mk(in.c.Un(OFNeg, v))
			}
			return in.mk(in.c.Un(ONeg, v))
		}
	case token.XOR:
		switch v := x.(type) {
		case uint64:
			return (^v) & mask(k.w)
		case *E:
			return in.mk(in.c.Un(OBNot, v))
		}
	case token.ARROW:
		in.unsup("channel receive")
	}
	panic(fmt.Sprintf("unop %v %T", o, x))
}

func (in *Interp) binop(o token.Token, t types.Type, k, ky kind, x, y Value) Value {
	switch o {
	case token.EQL:
		return in.eqVal(t, x, y)
	case token.NEQ:
		return in.notV(in.eqVal(t, x, y))
	}
	switch k.k {
	case 'i':
		xu, ok1 := x.(uint64)
		yu, ok2 := y.(uint64)
		if ok1 && ok2 {
			return in.intOp(o, k, ky, xu, yu)
		}
		return in.symIntOp(o, k, ky, x, y)
	case 'f':
		xf, ok1 := x.(float64)
		yf, ok2 := y.(float64)
		if ok1 && ok2 {
			r := func(f float64) Value {
				if k.w == 32 {
					return float64(float32(f))
				}
				return f
			}
			switch o {
			case token.ADD:
				return r(xf + yf)
			case token.SUB:
				return r(xf - yf)
			case token.MUL:
				return r(xf * yf)
			case token.QUO:
				return r(xf / yf)
			case token.LSS:
				return xf < yf
			case token.LEQ:
				return xf <= yf
			case token.GTR:
				return xf > yf
			case token.GEQ:
				return xf >= yf
			}
		}
		if k.w == 32 {
			in.unsup("symbolic float32")
		}
		a, b := in.fltE(x), in.fltE(y)
		switch o {
		case token.ADD:
			return in.mk(in.c.Bin(OFAdd, a, b))
		case token.SUB:
			return in.mk(in.c.Bin(OFSub, a, b))
		case token.MUL:
			return in.mk(in.c.Bin(OFMul, a, b))
		case token.QUO:
			return in.mk(in.c.Bin(OFDiv, a, b))
		case token.LSS:
			return in.mkb(in.c.Bin(OFLt, a, b))
		case token.LEQ:
			return in.mkb(in.c.Bin(OFLe, a, b))
		case token.GTR:
			return in.mkb(in.c.Bin(OFLt, b, a))
		case token.GEQ:
			return in.mkb(in.c.Bin(OFLe, b, a))
		}
	case 's':
		switch o {
		case token.ADD:
			return in.catStr(x, y)
		case token.LSS:
			return in.strLess(x, y)
		case token.GTR:
			return in.strLess(y, x)
		case token.LEQ:
			return in.notV(in.strLess(y, x))
		case token.GEQ:
			return in.notV(in.strLess(x, y))
		}
	case 'b':
		switch o {
		case token.AND, token.LAND:
			return in.andV(x, y)
		case token.OR, token.LOR:
			return in.orV(x, y)
		}
	}
	panic(fmt.Sprintf("binop %v %v %T %T", o, t, x, y))
}

func (in *Interp) strLess(x, y Value) Value {
	if xs, ok := x.(string); ok {
		if ys, ok := y.(string); ok {
			return xs < ys
		}
	}
	_, okx := strLen(x)
	_, oky := strLen(y)
	if !okx {
		x = in.concStr(x)
	}
	if !oky {
		y = in.concStr(y)
	}
	bx, by := bytesOf(x), bytesOf(y)
	acc := in.c.Bool(len(bx) < len(by))
	n := len(bx)
	if len(by) < n {
		n = len(by)
	}
	for i := n - 1; i >= 0; i-- {
		a, b := in.intE(bx[i], 8), in.intE(by[i], 8)
		acc = in.c.Or(in.c.Bin(OULt, a, b), in.c.And(in.c.Eq(a, b), acc))
	}
	return in.mkb(acc)
}

func (in *Interp) intOp(o token.Token, k, ky kind, x, y uint64) Value {
	m := mask(k.w)
	switch o {
	case token.ADD:
		return (x + y) & m
	case token.SUB:
		return (x - y) & m
	case token.MUL:
		return (x * y) & m
	case token.QUO:
		if y == 0 {
			in.rtPanic("integer divide by zero")
		}
		if k.signed {
			a, b := sext(x, k.w), sext(y, k.w)
			if b == -1 {
				return uint64(-a) & m
			}
			return uint64(a/b) & m
		}
		return (x / y) & m
	case token.REM:
		if y == 0 {
			in.rtPanic("integer divide by zero")
		}
		if k.signed {
			a, b := sext(x, k.w), sext(y, k.w)
			if b == -1 {
				return uint64(0)
			}
			return uint64(a%b) & m
		}
		return (x % y) & m
	case token.AND:
		return x & y
	case token.OR:
		return x | y
	case token.XOR:
		return x ^ y
	case token.AND_NOT:
		return x &^ y
	case token.SHL, token.SHR:
		if ky.signed && sext(y, ky.w) < 0 {
			in.rtPanic("negative shift amount")
		}
		if o == token.SHL {
			if y >= 64 {
				return uint64(0)
			}
			return (x << y) & m
		}
		if k.signed {
			if y > 63 {
				y = 63
			}
			return uint64(sext(x, k.w)>>y) & m
		}
		if y >= 64 {
			return uint64(0)
		}
		return x >> y
	case token.LSS:
		if k.signed {
			return sext(x, k.w) < sext(y, k.w)
		}
		return x < y
	case token.LEQ:
		if k.signed {
			return sext(x, k.w) <= sext(y, k.w)
		}
		return x <= y
	case token.GTR:
		return in.intOp(token.LSS, k, ky, y, x)
	case token.GEQ:
		return in.intOp(token.LEQ, k, ky, y, x)
	}
	panic("intOp " + o.String())
}

func (in *Interp) symIntOp(o token.Token, k, ky kind, x, y Value) Value {
	c := in.c
	if o == token.SHL || o == token.SHR {
		a := in.intE(x, k.w)
		b := in.intE(y, ky.w)
		if ky.signed {
			if in.branch(c.Bin(OSLt, b, c.BV(0, ky.w))) {
				in.rtPanic("negative shift amount")
			}
		}
		// saturate the shift amount to the operand width
		var sh *E
		if ky.w > k.w {
			big := c.Bin(OULt, c.BV(uint64(k.w), ky.w), b)
			sh = c.Ite(big, c.BV(uint64(k.w), k.w), c.Resize(b, k.w, false))
		} else {
			sh = c.Resize(b, k.w, false)
		}
		switch {
		case o == token.SHL:
			return in.mk(c.Bin(OShl, a, sh))
		case k.signed:
			return in.mk(c.Bin(OAShr, a, sh))
		}
		return in.mk(c.Bin(OLShr, a, sh))
	}
	a, b := in.intE(x, k.w), in.intE(y, k.w)
	pick := func(s, u Op) Op {
		if k.signed {
			return s
		}
		return u
	}
	switch o {
	case token.ADD:
		return in.mk(c.Bin(OAdd, a, b))
	case token.SUB:
		return in.mk(c.Bin(OSub, a, b))
	case token.MUL:
		return in.mk(c.Bin(OMul, a, b))
	case token.QUO, token.REM:
		if in.truth(in.mkb(c.Eq(b, c.BV(0, k.w)))) {
			in.rtPanic("integer divide by zero")
		}
		if o == token.QUO {
			return in.mk(c.Bin(pick(OSDiv, OUDiv), a, b))
		}
		return in.mk(c.Bin(pick(OSRem, OURem), a, b))
	case token.AND:
		return in.mk(c.Bin(OBAnd, a, b))
	case token.OR:
		return in.mk(c.Bin(OBOr, a, b))
	case token.XOR:
		return in.mk(c.Bin(OBXor, a, b))
	case token.AND_NOT:
		return in.mk(c.Bin(OBAnd, a, c.Un(OBNot, b)))
	case token.LSS:
		return in.mkb(c.Bin(pick(OSLt, OULt), a, b))
	case token.LEQ:
		return in.mkb(c.Bin(pick(OSLe, OULe), a, b))
	case token.GTR:
		return in.mkb(c.Bin(pick(OSLt, OULt), b, a))
	case token.GEQ:
		return in.mkb(c.Bin(pick(OSLe, OULe), b, a))
	}
	panic("symIntOp " + o.String())
}

func (in *Interp) conv(tt, ft types.Type, x Value) Value {
	ut, uf := tt.Underlying(), ft.Underlying()
	kt, kf := kindOf(tt), kindOf(ft)
	if kt.k == 'i' && kf.k == 'i' {
		return in.resizeV(x, kf.w, kt.w, kf.signed)
	}
	if kt.k == 'f' && kf.k == 'f' {
		if f, ok := x.(float64); ok {
			if kt.w == 32 {
				return float64(float32(f))
			}
			return f
		}
		if kt.w == 32 {
			in.unsup("symbolic float32 conversion")
		}
		return x
	}
	if kt.k == 'f' && kf.k == 'i' {
		if u, ok := x.(uint64); ok {
			var f float64
			if kf.signed {
				f = float64(sext(u, kf.w))
				if kt.w == 32 {
					f = float64(float32(sext(u, kf.w)))
				}
			} else {
				f = float64(u)
				if kt.w == 32 {
					f = float64(float32(u))
				}
			}
			return f
		}
		if kt.w == 32 {
			in.unsup("symbolic float32 conversion")
		}
		if kf.signed {
			return in.mk(in.c.node(OSToF, FPSort, 0, x.(*E)))
		}
		return in.mk(in.c.node(OUToF, FPSort, 0, x.(*E)))
	}
	if kt.k == 'i' && kf.k == 'f' {
		if f, ok := x.(float64); ok {
			if kt.signed {
				return uint64(int64(f)) & mask(kt.w)
			}
			return uint64(f) & mask(kt.w)
		}
		// amd64 semantics: out-of-range conversions are implementation-defined; signed gives 0x8000...
		e := x.(*E)
		c := in.c
		if kt.signed {
			inr := c.And(c.Bin(OFLe, c.F(-9223372036854775808.0), e), c.Bin(OFLt, e, c.F(9223372036854775808.0)))
			r := c.Ite(inr, c.node(OFToS, 64, 0, e), c.BV(1<<63, 64))
			return in.mk(c.Resize(r, kt.w, true))
		}
		inr := c.And(c.Bin(OFLt, c.F(-1), e), c.Bin(OFLt, e, c.F(18446744073709551616.0)))
		if !in.branch(inr) {
			f := in.concFloat(e)
			return uint64(f) & mask(kt.w)
		}
		return in.mk(c.Resize(c.node(OFToU, 64, 0, e), kt.w, false))
	}
	if kt.k == 's' {
		switch kf.k {
		case 's':
			return x
		case 'i':
			u := in.concInt(x, kf.w)
			return string(rune(sext(u, kf.w)))
		}
		if st, ok := uf.(*types.Slice); ok {
			s := x.(Slice)
			if kindOf(st.Elem()).w == 8 {
				return mkStr([]Value(s))
			}
			var r []Value
			for _, v := range s {
				if u, ok := v.(uint64); ok {
					r = append(r, bytesOf(string(rune(int32(u))))...)
					continue
				}
				e := v.(*E)
				if in.branch(in.c.Bin(OULt, e, in.c.BV(0x80, 32))) {
					r = append(r, in.mk(in.c.Resize(e, 8, false)))
				} else {
					u := in.concInt(e, 32)
					r = append(r, bytesOf(string(rune(int32(u))))...)
				}
			}
			return mkStr(r)
		}
	}
	if st, ok := ut.(*types.Slice); ok && kf.k == 's' {
		if kindOf(st.Elem()).w == 8 {
			if _, ok := strLen(x); !ok {
				if _, isCat := x.(*Cat); isCat {
					return Slice{&Native{kind: "text", v: x}}
				}
				x = in.concStr(x)
			}
			b := bytesOf(x)
			r := make(Slice, len(b))
			copy(r, b)
			return r
		}
		// []rune
		it := &Iter{s: x}
		if _, ok := strLen(x); !ok {
			it.s = in.concStr(x)
		}
		r := Slice{}
		for {
			t := in.next(it, true, nil).(Tuple)
			if t[0] == false {
				break
			}
			r = append(r, t[2])
		}
		return r
	}
	if _, ok := ut.(*types.Pointer); ok {
		if _, ok := uf.(*types.Pointer); ok {
			return x
		}
		// unsafe.Pointer -> *T
		return x
	}
	if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	if b, ok := uf.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return uint64(0)
	}
	switch x.(type) {
	case Slice, *Map, *Closure, Struct, Array, Iface, *Native:
		return x
	}
	in.unsup("conv %v -> %v", ft, tt)
	return nil
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundup(n int) int {
	for _, c := range sizeClasses {
		if c >= n {
			return c
		}
	}
	return (n + 8191) &^ 8191
}

func growCap(oldCap, newLen, esz int) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return newLen
	}
	return roundup(nc*esz) / esz
}

func (in *Interp) appendSlice(s Slice, add []Value, et types.Type) Slice {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		for i, v := range add {
			in.store(&r[len(s)+i], v)
		}
		return r
	}
	esz := 8
	if et != nil {
		esz = int(in.sizes.Sizeof(et))
	}
	nc := growCap(cap(s), n, esz)
	if nc < n {
		nc = n
	}
	in.steps += int64(len(s)) / 4
	r := make(Slice, nc)
	for i, v := range s {
		r[i] = copyVal(v)
	}
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	if et != nil && nc > n {
		z := zero(et)
		for i := n; i < nc; i++ {
			r[i] = copyVal(z)
		}
	}
	return r[:n]
}

func (in *Interp) builtin(fr *frame, name string, args []Value, ats []types.Type, rt types.Type) Value {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case Slice:
			return uint64(len(v))
		case Array:
			return uint64(len(v))
		case *Map:
			if v == nil {
				return uint64(0)
			}
			return uint64(v.n)
		case *Value:
			return uint64(deref(ats[0]).Underlying().(*types.Array).Len())
		case *Native:
			return uint64(0)
		}
		return in.lenStr(args[0])
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return uint64(cap(v))
		case Array:
			return uint64(len(v))
		case *Value:
			return uint64(deref(ats[0]).Underlying().(*types.Array).Len())
		}
		return uint64(0)
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].(Slice)
		et := ats[0].Underlying().(*types.Slice).Elem()
		if a, ok := args[1].(Slice); ok {
			return in.appendSlice(s, a, et)
		}
		x := args[1]
		if _, ok := strLen(x); !ok {
			x = in.concStr(x)
		}
		return in.appendSlice(s, bytesOf(x), et)
	case "copy":
		d := args[0].(Slice)
		var src []Value
		if a, ok := args[1].(Slice); ok {
			src = a
		} else {
			x := args[1]
			if _, ok := strLen(x); !ok {
				x = in.concStr(x)
			}
			src = bytesOf(x)
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			in.store(&d[i], tmp[i])
		}
		return uint64(n)
	case "delete":
		in.mapDelete(args[0].(*Map), ats[0].Underlying().(*types.Map).Key(), args[1])
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *Map:
			if v != nil {
				for _, e := range append([]*mapEnt{}, v.ents...) {
					if !e.dead {
						in.mapDelete(v, ats[0].Underlying().(*types.Map).Key(), e.k)
					}
				}
			}
		case Slice:
			z := zero(ats[0].Underlying().(*types.Slice).Elem())
			for i := range v {
				in.store(&v[i], copyVal(z))
			}
		}
		return nil
	case "panic":
		panic(&targetPanic{v: args[0], trace: in.stack()})
	case "recover":
		return in.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		k := kindOf(ats[0])
		r := args[0]
		for _, a := range args[1:] {
			o := token.LSS
			if name == "max" {
				o = token.GTR
			}
			if in.truth(in.binop(o, ats[0], k, k, a, r)) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].(*Value) == nil {
			in.rtPanic(fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2]))
		}
		return args[0]
	case "String": // unsafe.String
		p := args[0]
		n := int(in.concInt(args[1], 64))
		if n == 0 {
			return ""
		}
		_ = p
		in.unsup("unsafe.String")
	case "ssa:deferstack":
		return nil
	case "real", "imag", "complex":
		in.unsup("complex numbers")
	case "close":
		return nil
	}
	in.unsup("builtin %s", name)
	return nil
}

func (in *Interp) doRecover(fr *frame) Value {
	// fr is the frame of the deferred function; its caller is the panicking frame
	if fr != nil && fr.caller != nil {
		c := fr.caller
		if c.panicking {
			c.panicking = false
			v := c.panicV.v
			// keep panicV non-nil so runDefer knows it recovered
			return v
		}
	}
	return Iface{}
}

func (in *Interp) truth(v Value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	return in.branch(v.(*E))
}

var _ = math.Abs

var hotOn = os.Getenv("GOSYM_HOT") != ""
var hotMu sync.Mutex
var hot = map[string]int{}

func (b *blk) srcs0(fr *frame) string { return fr.fi.fn.String() }

func hotPrint() {
	if !hotOn {
		return
	}
	var l []string
	for k := range hot {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return hot[l[i]] > hot[l[j]] })
	t := 0
	for _, k := range l {
		t += hot[k]
	}
	for i, k := range l {
		if i < 50 {
			fmt.Printf("HOT %5.1f%% %9d %s\n", 100*float64(hot[k])/float64(t), hot[k], k)
		}
	}
}
