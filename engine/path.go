package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
)

const (
	dFalse    = 0
	dTrue     = 1
	dImpFalse = 2
	dImpTrue  = 3
	dChoice   = 4
	dConcYes  = 5
	dConcNo   = 6
	dStr      = 7
	dNote     = 8
)

type Decision struct {
	k uint8
	v uint64
	s string
}

// ndRec is one nondeterministic input in program order.
type ndRec struct {
	kind string // bool,int,uint,float,byte,choice,str,atom,big,pattern
	v    Value
	e    *E
	a    *Atom
	pat  *patState
	name string
}

type patState struct {
	id    int
	apps  []patApp // applications
	byID  map[*E]*E
	bytes map[string]*E
}
type patApp struct {
	a     *Atom
	lit   string
	isLit bool
	res   *E
}

type Path struct {
	h            *Harness
	prefix       []Decision
	pos          int
	dec          []Decision
	pc           []*E
	sent         int
	model        Model
	memo         map[*E]V
	vars         []*E
	nd           []ndRec
	atoms        []*Atom
	pats         []*patState
	mapOrder     bool
	usedOrder    bool
	cover        map[string]bool
	reach        []string
	obs          []obsRec
	incomplete   []string
	asserts      int
	nvar         int
	fails        []string
	hashes       []hashRec
	places       []Value
	interned     map[string]*E
	internedList []string
	lenFacts     map[[2]*E]bool
	ends         string
}

type obsRec struct {
	label string
	v     Value
}

type hashRec struct {
	key string
	e   *E
}

type WorkItem struct {
	h      *Harness
	prefix []Decision
	model  Model
}

type Violation struct {
	Harness  string   `json:"harness"`
	Label    string   `json:"label"`
	Kind     string   `json:"kind"` // assert | panic | hang
	Detail   string   `json:"detail"`
	Inputs   []NDVal  `json:"inputs"`
	Order    bool     `json:"map_order"`
	Reach    []string `json:"reach,omitempty"`
	Observed string   `json:"observed,omitempty"`
}

type NDVal struct {
	K string `json:"k"`
	N string `json:"n,omitempty"`
	V string `json:"v"`
}

func (in *Interp) newVar(tag string, sort int) *E {
	p := in.p
	p.nvar++
	e := in.c.Var(fmt.Sprintf("%s_%d_s%d", tag, p.nvar, sort), sort)
	p.vars = append(p.vars, e)
	return e
}

func (in *Interp) evalB(e *E) bool { return e.eval(in.p.model, in.p.memo).u != 0 }

func (in *Interp) setModel(m Model) {
	in.p.model = m
	in.p.memo = map[*E]V{}
}

func (in *Interp) addPC(e *E) {
	if e.isTrue() {
		return
	}
	in.p.pc = append(in.p.pc, e)
}

func (in *Interp) flush() {
	p := in.p
	for ; p.sent < len(p.pc); p.sent++ {
		in.s.assert(p.pc[p.sent])
	}
}

// query checks pc ∧ e; on sat returns a model.
func (in *Interp) query(e *E) (string, Model) {
	if e.isFalse() {
		return "unsat", nil
	}
	in.flush()
	in.s.define(e)
	in.s.push()
	in.s.assert(e)
	t0 := time.Now()
	r := in.s.check()
	if d := time.Since(t0); slowOn && d > 300*time.Millisecond {
		in.slow(e, r, d)
	}
	var m Model
	if r == "sat" {
		m = in.s.values(in.p.vars)
	}
	in.s.pop()
	if r == "unknown" {
		r, m = in.retry(e)
	}
	if r == "unknown" {
		in.eng.note("solver-unknown:" + in.p.h.Name)
	}
	if r == "sat" && in.eng.checkModels {
		memo := map[*E]V{}
		for _, c := range append(append([]*E{}, in.p.pc...), e) {
			if c.eval(m, memo).u == 0 {
				in.eng.note("model-eval-mismatch")
				if in.dbg {
					fmt.Println("MISMATCH", c)
				}
				return "unknown", nil
			}
		}
	}
	return r, m
}

// retry asks a question the incremental solver gave up on to fresh processes: without
// incremental state, then with the other installed solver release.
func (in *Interp) retry(e *E) (r string, m Model) {
	bin, to := in.s.bin, in.s.timeout
	for _, b := range []string{bin, in.eng.altSolver} {
		if b == "" {
			continue
		}
		in.s.close()
		in.s.bin, in.s.timeout = b, 40000
		in.s.start()
		for _, c := range in.p.pc {
			in.s.assert(c)
		}
		in.s.assert(e)
		r = in.s.check()
		if r == "sat" {
			m = in.s.values(in.p.vars)
		}
		if r != "unknown" {
			break
		}
	}
	in.s.close()
	in.s.bin, in.s.timeout = bin, to
	in.s.start()
	in.s.push() // the path's level
	in.p.sent = 0
	return r, m
}

func (in *Interp) push(d Decision, m Model) {
	p := in.p
	np := make([]Decision, len(p.dec)+1)
	copy(np, p.dec)
	np[len(p.dec)] = d
	in.eng.addWork(&WorkItem{h: p.h, prefix: np, model: m})
}

func (in *Interp) inPrefix() bool { return in.p.pos < len(in.p.prefix) }

func (in *Interp) take(d Decision) { in.p.dec = append(in.p.dec, d) }

func (in *Interp) next_() Decision {
	p := in.p
	d := p.prefix[p.pos]
	p.pos++
	p.dec = append(p.dec, d)
	return d
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (in *Interp) branch(cond *E) bool {
	if cond.op == OConst {
		return cond.val != 0
	}
	p := in.p
	if p == nil {
		in.unsup("symbolic branch outside a path")
	}
	if in.inPrefix() {
		d := in.next_()
		switch d.k {
		case dTrue:
			in.addPC(cond)
			return true
		case dFalse:
			in.addPC(in.c.Not(cond))
			return false
		case dImpTrue:
			return true
		case dImpFalse:
			return false
		}
		panic(fmt.Sprintf("branch: prefix mismatch (%d)", d.k))
	}
	in.eng.addTransitions(1)
	side := in.evalB(cond)
	other := in.c.Not(cond)
	if !side {
		other = cond
	}
	r, m := in.query(other)
	if r == "sat" {
		if side {
			in.push(Decision{k: dFalse}, m)
			in.take(Decision{k: dTrue})
			in.addPC(cond)
		} else {
			in.push(Decision{k: dTrue}, m)
			in.take(Decision{k: dFalse})
			in.addPC(in.c.Not(cond))
		}
		return side
	}
	if r == "unknown" {
		p.incomplete = append(p.incomplete, "solver gave no answer on a branch")
		// stay on the feasible side but keep the constraint
		if side {
			in.take(Decision{k: dTrue})
			in.addPC(cond)
		} else {
			in.take(Decision{k: dFalse})
			in.addPC(in.c.Not(cond))
		}
		return side
	}
	if side {
		in.take(Decision{k: dImpTrue})
	} else {
		in.take(Decision{k: dImpFalse})
	}
	return side
}

func (in *Interp) choose(n int, tag string) int {
	if n <= 1 {
		return 0
	}
	if tag == "maporder" {
		in.p.usedOrder = true
	}
	if in.inPrefix() {
		d := in.next_()
		if d.k != dChoice {
			panic(fmt.Sprintf("choose: prefix mismatch (%d)", d.k))
		}
		return int(d.v)
	}
	in.eng.addTransitions(1)
	for i := n - 1; i >= 1; i-- {
		in.push(Decision{k: dChoice, v: uint64(i)}, in.p.model)
	}
	in.take(Decision{k: dChoice, v: 0})
	return 0
}

// concInt enumerates the feasible values of a symbolic integer.
func (in *Interp) concInt(v Value, w int) uint64 {
	if u, ok := v.(uint64); ok {
		return u
	}
	e, ok := v.(*E)
	if !ok {
		in.unsup("concInt of %T", v)
	}
	if e.op == OConst {
		return e.val
	}
	for i := 0; ; i++ {
		if in.inPrefix() {
			d := in.next_()
			eq := in.c.Eq(e, in.c.BV(d.v, e.sort))
			switch d.k {
			case dConcYes:
				in.addPC(eq)
				return d.v
			case dConcNo:
				in.addPC(in.c.Not(eq))
				continue
			}
			panic("concInt: prefix mismatch")
		}
		in.eng.addTransitions(1)
		u := e.eval(in.p.model, in.p.memo).u
		eq := in.c.Eq(e, in.c.BV(u, e.sort))
		if i < in.eng.maxEnum {
			r, m := in.query(in.c.Not(eq))
			if r == "sat" {
				in.push(Decision{k: dConcNo, v: u}, m)
			} else if r == "unknown" {
				in.p.incomplete = append(in.p.incomplete, "solver gave no answer on an enumeration")
			}
		} else {
			in.incompletef("enumeration of an integer stopped after %d values", in.eng.maxEnum)
		}
		in.take(Decision{k: dConcYes, v: u})
		in.addPC(eq)
		return u
	}
}

func (in *Interp) incompletef(f string, a ...any) {
	in.p.incomplete = append(in.p.incomplete, fmt.Sprintf(f, a...))
}

// pin fixes a symbolic integer to its model value (a stated reduction of the bound).
func (in *Interp) pin(e *E, why string) V {
	if e.op == OConst {
		return e.constVal()
	}
	if in.inPrefix() {
		d := in.next_()
		b, _ := new(big.Int).SetString(d.s, 10)
		v := mkV(b)
		in.addPC(in.c.Eq(e, in.c.constV(V{b: b, u: v.u}.norm(e.sort), e.sort)))
		in.incompletef("%s", why)
		return v
	}
	v := e.eval(in.p.model, in.p.memo)
	in.take(Decision{k: dStr, s: v.Big().String()})
	in.addPC(in.c.Eq(e, in.c.constV(v.norm(e.sort), e.sort)))
	in.incompletef("%s", why)
	return v
}

func (v V) norm(sort int) V {
	if sort > 64 && sort < FPSort {
		return V{b: v.Big()}
	}
	if v.b != nil {
		return V{u: v.b.Uint64()}
	}
	return v
}

// trickyFloat fixes a symbolic number whose text is taken in a form that does not determine it: first a
// few numbers whose texts differ between the forms, then whatever the path has.
func (in *Interp) trickyFloat(e *E) float64 {
	if e.op != OConst {
		for _, f := range []float64{1e-7, 0.1, 1e21, 1 << 53} {
			if in.branch(in.c.Bin(OFEq, e, in.c.F(f))) {
				return f
			}
		}
	}
	return in.concFloat(e)
}

// trickyInt does the same for an integer.
func (in *Interp) trickyInt(e *E) uint64 {
	if e.op != OConst {
		for _, u := range []uint64{10, 255, 1 << 20} {
			if e.sort >= 64 || u < 1<<e.sort {
				if in.branch(in.c.Eq(e, in.c.constV(V{u: u}.norm(e.sort), e.sort))) {
					return u
				}
			}
		}
	}
	return in.pin(e, "a formatted integer was fixed at "+in.where()).u
}

func (in *Interp) concFloat(v Value) float64 {
	if f, ok := v.(float64); ok {
		return f
	}
	e := v.(*E)
	if e.op == OConst {
		return math.Float64frombits(e.val)
	}
	bits := e
	if e.op == OFromBits {
		bits = e.args[0]
		u := in.pin(bits, "a float was fixed to one value at "+in.where()).u
		return math.Float64frombits(u)
	}
	// derived float: pin each variable below it
	for _, x := range varsOf(e) {
		in.pin(x, "a float was fixed to one value at "+in.where())
	}
	return math.Float64frombits(e.eval(in.p.model, in.p.memo).u)
}

func varsOf(e *E) []*E {
	seen := map[*E]bool{}
	var out []*E
	var walk func(e *E)
	walk = func(e *E) {
		if seen[e] || !e.hasv {
			return
		}
		seen[e] = true
		if e.op == OVar {
			out = append(out, e)
		}
		for _, a := range e.args {
			walk(a)
		}
	}
	walk(e)
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func (in *Interp) where() string {
	if pinTrace {
		fmt.Println("PIN\n" + in.stack())
	}
	if in.cur == nil {
		return "?"
	}
	return in.cur.fi.fn.String()
}

// concStr turns a symbolic string into a concrete one (reducing the bound).
func (in *Interp) concStr(v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SStr:
		b := make([]byte, len(v.b))
		for i, x := range v.b {
			if u, ok := x.(uint64); ok {
				b[i] = byte(u)
			} else {
				b[i] = byte(in.pin(x.(*E), "string bytes were fixed at "+in.where()).u)
			}
		}
		return string(b)
	case *NumStr:
		x := in.pin(v.e, "the text of a symbolic integer was fixed at "+in.where())
		return numText(x, v)
	case *FltStr:
		verb := v.verb
		if verb == 0 {
			verb = 'g'
		}
		return strconv.FormatFloat(in.trickyFloat(v.e), verb, -1, 64)
	case *BoolStr:
		if in.branch(v.e) {
			return "true"
		}
		return "false"
	case *Cat:
		var sb strings.Builder
		for _, p := range v.parts {
			sb.WriteString(in.concStr(p))
		}
		return sb.String()
	case *Atom:
		var s string
		if in.inPrefix() {
			s = in.next_().s
		} else {
			s = in.atomText(v, in.p.model)
			in.take(Decision{k: dStr, s: s})
		}
		eq := in.c.Eq(v.id, in.internAtom(v, s))
		if !in.inPrefix() && !in.evalB(eq) {
			r, m := in.query(eq)
			if r != "sat" {
				panic(&pathEnd{"pin-infeasible"})
			}
			in.setModel(m)
		}
		in.addPC(eq)
		in.incompletef("an opaque string was fixed at %s", in.where())
		return s
	case *PatStr:
		in.unsup("text of an opaque pattern")
	}
	in.unsup("concStr %T", v)
	return ""
}

func numText(x V, v *NumStr) string {
	b := x.Big()
	if v.signed {
		b = bigSigned(b, v.e.sort)
	}
	return b.String()
}

// ---- opaque strings ----

func (in *Interp) newAtom(name string, maxLen int) *Atom {
	id := in.newVar("aid", 64)
	c := in.c
	w := 64
	if maxLen < 50 {
		w = 8
	}
	n8, rn8 := in.newVar("alen", w), in.newVar("arn", w)
	n, rn := c.Resize(n8, 64, false), c.Resize(rn8, 64, false)
	a := &Atom{id: id, n: n, rn: rn, name: name}
	in.p.atoms = append(in.p.atoms, a)
	in.assume(c.Bin(OULe, n, c.BV(uint64(maxLen), 64)))
	// rune count: rn <= n <= 4*rn
	in.assume(c.And(c.Bin(OULe, rn8, n8), c.Bin(OULe, n8, c.Bin(OMul, rn8, c.BV(4, w)))))
	// the empty string is the one with length zero
	e := in.internID("")
	in.assume(c.Eq(c.Eq(n, c.BV(0, 64)), c.Eq(id, e)))
	// length and rune count are functions of identity
	for _, o := range in.p.atoms {
		if o != a {
			in.assume(c.Or(c.Not(c.Eq(o.id, id)), c.And(c.Eq(o.n, n), c.Eq(o.rn, rn))))
		}
	}
	for _, s := range in.p.internedList {
		if !opaqueText(s) {
			in.assume(c.Not(c.Eq(id, in.p.interned[s])))
			continue
		}
		in.assume(c.Or(c.Not(c.Eq(id, in.p.interned[s])), c.And(c.Eq(n, c.BV(uint64(len(s)), 64)), c.Eq(rn, c.BV(uint64(runeCount(s)), 64)))))
	}
	return a
}

func runeCount(s string) int {
	n := 0
	for range s {
		n++
	}
	return n
}

func (in *Interp) internID(s string) *E {
	p := in.p
	if e, ok := p.interned[s]; ok {
		return e
	}
	e := in.c.BV(uint64(1<<40+len(p.internedList)), 64)
	p.interned[s] = e
	p.internedList = append(p.internedList, s)
	for _, a := range p.atoms {
		c := in.c
		if !opaqueText(s) {
			in.assume(c.Not(c.Eq(a.id, e)))
			continue
		}
		in.assume(c.Or(c.Not(c.Eq(a.id, e)), c.And(c.Eq(a.n, c.BV(uint64(len(s)), 64)), c.Eq(a.rn, c.BV(uint64(runeCount(s)), 64)))))
		for idx, b := range a.bytes {
			if idx < len(s) {
				in.assume(c.Or(c.Not(c.Eq(a.id, e)), c.Eq(b, c.BV(uint64(s[idx]), 8))))
			}
		}
	}
	return e
}

// opaqueByte: opaque strings contain none of these ASCII characters (a stated assumption); they have
// a meaning in YAML, RAML or the library's own syntax and are covered by concrete and per-byte strings.
func opaqueByte(b byte) bool {
	return b >= 0x80 || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '_' || b == '-' || b == '~' || b == '^'
}

func opaqueText(s string) bool {
	for i := 0; i < len(s); i++ {
		if !opaqueByte(s[i]) {
			return false
		}
	}
	return true
}

// opaqueIndex reads one byte of an opaque string or of a rendered number.
func (in *Interp) opaqueIndex(v, i Value, k kind) (Value, bool) {
	u, ok := i.(uint64)
	if !ok {
		return nil, false
	}
	idx := int(sext(u, k.w))
	c := in.c
	switch v := v.(type) {
	case *Atom:
		if idx < 0 || idx > 64 {
			return nil, false
		}
		if !in.branch(c.Bin(OULt, c.BV(uint64(idx), 64), v.n)) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length sym", idx))
		}
		if b, ok := v.bytes[idx]; ok {
			return b, true
		}
		b := in.newVar("ab", 8)
		if v.bytes == nil {
			v.bytes = map[int]*E{}
		}
		rng := func(lo, hi byte) *E {
			return c.And(c.Bin(OULe, c.BV(uint64(lo), 8), b), c.Bin(OULe, b, c.BV(uint64(hi), 8)))
		}
		in.assume(c.Or(c.Or(rng('a', 'z'), rng(0x80, 0xf4)), c.Or(c.Or(rng('A', 'Z'), rng('0', '9')), c.Or(rng('^', '_'), c.Or(rng('-', '-'), rng('~', '~'))))))
		for _, o := range in.p.atoms {
			if ob, ok := o.bytes[idx]; ok && o != v {
				in.assume(c.Or(c.Not(c.Eq(o.id, v.id)), c.Eq(ob, b)))
			}
		}
		v.bytes[idx] = b
		for _, s := range in.p.internedList {
			if idx < len(s) {
				in.assume(c.Or(c.Not(c.Eq(v.id, in.p.interned[s])), c.Eq(b, c.BV(uint64(s[idx]), 8))))
			}
		}
		return b, true
	case *NumStr:
		if idx != 0 {
			return nil, false
		}
		b := in.newVar("nb", 8)
		w := v.e.sort
		neg := c.Bool(false)
		if v.signed {
			neg = c.Bin(OSLt, v.e, c.constV(V{b: new(big.Int)}.norm(w), w))
		}
		zero := c.Eq(v.e, c.constV(V{b: new(big.Int)}.norm(w), w))
		dig := c.And(c.Bin(OULe, c.BV('1', 8), b), c.Bin(OULe, b, c.BV('9', 8)))
		in.assume(c.Ite(neg, c.Eq(b, c.BV('-', 8)), c.Ite(zero, c.Eq(b, c.BV('0', 8)), dig)))
		return b, true
	case *FltStr:
		if idx != 0 {
			return nil, false
		}
		b := in.newVar("fb", 8)
		in.assume(c.Or(c.And(c.Bin(OULe, c.BV('0', 8), b), c.Bin(OULe, b, c.BV('9', 8))), c.Or(c.Eq(b, c.BV('-', 8)), c.Eq(b, c.BV('.', 8)))))
		return b, true
	}
	return nil, false
}

// catIndex reads a byte that lies in the leading concrete part of a concatenation.
func (in *Interp) catIndex(v *Cat, i Value, k kind) (Value, bool) {
	u, ok := i.(uint64)
	if !ok || len(v.parts) == 0 {
		return nil, false
	}
	idx := int(sext(u, k.w))
	if s, ok := v.parts[0].(string); ok && idx >= 0 && idx < len(s) {
		return uint64(s[idx]), true
	}
	return nil, false
}

func (in *Interp) internAtom(a *Atom, s string) *E { return in.internID(s) }

// atomText renders an atom under a model: same id, same text; distinct ids, distinct texts.
func (in *Interp) atomText(a *Atom, m Model) string {
	memo := map[*E]V{}
	id := a.id.eval(m, memo).u
	for s, e := range in.p.interned {
		if e.val == id {
			return s
		}
	}
	n := int(a.n.eval(m, memo).u)
	rn := int(a.rn.eval(m, memo).u)
	// choose byte widths
	used := map[string]bool{}
	for s := range in.p.interned {
		used[s] = true
	}
	// rank of this id among ids with the same shape
	ids := map[uint64]bool{}
	var order []uint64
	for _, o := range in.p.atoms {
		oid := o.id.eval(m, memo).u
		if !ids[oid] {
			ids[oid] = true
			order = append(order, oid)
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
	rank := 0
	for i, x := range order {
		if x == id {
			rank = i
		}
	}
	pools := [][]rune{nil, []rune("abcdefghijklmnopqrstuvwxyz"), []rune("àáâãäåæçèéêëìíîïðñòóôõöøùúûü"), []rune("あいうえおかきくけこさしすせそたちつてと"), []rune("😀😁😂😃😄😅😆😇😈😉😊😋😌😍😎😏")}
	widths := make([]int, rn)
	left := n
	for i := range widths {
		widths[i] = 1
		left--
	}
	for i := range widths {
		add := left
		if add > 3 {
			add = 3
		}
		widths[i] += add
		left -= add
	}
	for try := 0; try < 10000; try++ {
		k := rank + try*len(order)
		rs := make([]rune, rn)
		x := k
		for i := rn - 1; i >= 0; i-- {
			pool := pools[widths[i]]
			rs[i] = pool[x%len(pool)]
			x /= len(pool)
		}
		s := string(rs)
		if !used[s] {
			return s
		}
	}
	return strings.Repeat("z", n)
}

// ---- assume / assert ----

func (in *Interp) assume(e *E) {
	if e.isTrue() {
		return
	}
	if e.isFalse() {
		panic(&pathEnd{"assume"})
	}
	if in.inPrefix() {
		in.addPC(e)
		return
	}
	if !in.evalB(e) {
		r, m := in.query(e)
		if r == "unsat" {
			panic(&pathEnd{"assume"})
		}
		if r == "unknown" {
			in.p.incomplete = append(in.p.incomplete, "solver gave no answer on an assumption")
			panic(&pathEnd{"unknown"})
		}
		in.setModel(m)
	}
	in.addPC(e)
}

func (in *Interp) assertV(v Value, label string) {
	p := in.p
	if b, ok := v.(bool); ok {
		if !in.inPrefix() {
			p.asserts++
			in.eng.countAssert(p.h, label, !b)
		}
		if !b {
			in.violation("assert", label, "", p.model)
			panic(&pathEnd{"violated"})
		}
		return
	}
	e := v.(*E)
	if in.inPrefix() {
		in.addPC(e)
		return
	}
	p.asserts++
	bad := false
	if !in.evalB(e) {
		bad = true
		in.violation("assert", label, "", p.model)
	} else {
		r, m := in.query(in.c.Not(e))
		if r == "sat" {
			bad = true
			in.violation("assert", label, "", m)
		} else if r == "unknown" {
			p.incomplete = append(p.incomplete, "solver gave no answer on assertion "+label)
		}
	}
	in.eng.countAssert(p.h, label, bad)
	in.eng.addObligation()
	// continue under the assertion
	if bad {
		if !in.evalB(e) {
			r, m := in.query(e)
			if r != "sat" {
				panic(&pathEnd{"violated"})
			}
			in.setModel(m)
		}
	}
	in.addPC(e)
}

func (in *Interp) violation(kind, label, detail string, m Model) {
	p := in.p
	if len(p.incomplete) > 0 && in.dbg {
		detail += " [path was reduced]"
	}
	v := &Violation{Harness: p.h.Name, Label: label, Kind: kind, Detail: detail, Order: p.usedOrder}
	v.Inputs = in.inputs(m)
	v.Reach = append([]string{}, p.reach...)
	in.eng.addViolation(v)
}

// inputs renders the nondeterministic inputs under a model, in program order.
func (in *Interp) inputs(m Model) []NDVal {
	memo := map[*E]V{}
	var out []NDVal
	for _, r := range in.p.nd {
		n := NDVal{K: r.kind, N: r.name}
		switch r.kind {
		case "choice":
			n.V = fmt.Sprint(r.v)
		case "bool":
			n.V = strconv.FormatBool(r.e.eval(m, memo).u != 0)
		case "int":
			n.V = strconv.FormatInt(int64(r.e.eval(m, memo).u), 10)
		case "uint":
			n.V = strconv.FormatUint(r.e.eval(m, memo).u, 10)
		case "float":
			n.V = strconv.FormatUint(r.e.eval(m, memo).u, 16)
		case "big":
			n.V = bigSigned(r.e.eval(m, memo).Big(), 128).String()
		case "str":
			bs := r.v.([]Value)
			b := make([]byte, len(bs))
			for i, x := range bs {
				if u, ok := x.(uint64); ok {
					b[i] = byte(u)
				} else {
					b[i] = byte(x.(*E).eval(m, memo).u)
				}
			}
			n.V = strconv.QuoteToASCII(string(b))
			if !isUTF8(string(b)) {
				n.V = fmt.Sprintf("hex:%x", b)
			}
		case "atom":
			n.V = strconv.QuoteToASCII(in.atomText(r.a, m))
		case "pattern":
			n.V = in.patText(r.pat, m)
		}
		out = append(out, n)
	}
	return out
}

func isUTF8(s string) bool { return strings.ToValidUTF8(s, "\x00") == s }

func (in *Interp) patText(p *patState, m Model) string {
	memo := map[*E]V{}
	var alts []string
	seen := map[string]bool{}
	for _, a := range p.apps {
		if a.res.eval(m, memo).u == 0 {
			continue
		}
		s := a.lit
		if !a.isLit {
			s = in.atomText(a.a, m)
		}
		if !seen[s] {
			seen[s] = true
			alts = append(alts, regexpQuote(s))
		}
	}
	if len(alts) == 0 {
		return fmt.Sprintf("^(?:@never%d@)$", p.id)
	}
	return fmt.Sprintf("^(?:%s|@p%d@)$", strings.Join(alts, "|"), p.id)
}

// patMatch is the opaque predicate of a pattern, a function of the string's identity.
func (in *Interp) patMatch(p *patState, v Value) Value {
	c := in.c
	var a *Atom
	lit, isLit := v.(string)
	if !isLit {
		var ok bool
		a, ok = v.(*Atom)
		if !ok {
			lit = in.concStr(v)
			isLit = true
		}
	}
	idOf := func(x patApp) *E {
		if x.isLit {
			return in.internID(x.lit)
		}
		return x.a.id
	}
	var id *E
	if isLit {
		id = in.internID(lit)
	} else {
		id = a.id
	}
	for _, x := range p.apps {
		if idOf(x) == id {
			return in.mkb(x.res)
		}
	}
	r := in.newVar("pat", 0)
	for _, x := range p.apps {
		in.assume(c.Or(c.Not(c.Eq(idOf(x), id)), c.Eq(x.res, r)))
	}
	p.apps = append(p.apps, patApp{a: a, lit: lit, isLit: isLit, res: r})
	return r
}

var pinTrace = os.Getenv("GOSYM_PIN") != ""

var slowOn = os.Getenv("GOSYM_SLOW") != ""

// slow dumps a query that took long.
func (in *Interp) slow(e *E, r string, d time.Duration) {
	s := &Solver{vars: map[string]int{}, gen: -1 - rand.Intn(1<<30), bin: "x"}
	var b strings.Builder
	s.log = &b
	s.in = bufio.NewWriter(io.Discard)
	for _, c := range in.p.pc {
		s.assert(c)
	}
	s.assert(e)
	os.WriteFile(fmt.Sprintf("%s/slow_%d_%s.smt2", os.Getenv("GOSYM_SLOW"), d.Milliseconds(), r), []byte(fmt.Sprintf("; %s %v\n", in.p.h.Name, in.p.dec)+b.String()+"(check-sat)\n"), 0o644)
	in.s.close()
	in.s.start()
	in.s.push()
	in.p.sent = 0
}
