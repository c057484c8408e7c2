package raml

import (
	"context"
	"errors"
	"strconv"
)

//use: common.go
//bound: every sequence of up to 4 (thorough: 6) operations (append, prepend, remove, clear, nil hook, hook of another key) with three hooks, through RAML or a shape of it; every operation performed by a running hook, at every position; every step of a parse (17 keys) failing at every call of it in a document with all forms of declaration
//assume: hooks are distinct function literals (Go functions of one literal cannot be told apart)

var _ = vReg("VH_C16_sequence", VH_C16_sequence)
var _ = vReg("VH_C16_during", VH_C16_during)
var _ = vReg("VH_C16_separate", VH_C16_separate)
var _ = vReg("VH_C16_abort", VH_C16_abort)
var _ = vReg("VH_C16_seen", VH_C16_seen)

// c16Rec records the calls of three hooks; bad is the hook that fails.
type c16Rec struct {
	trace string
	bad   int
	err   error
	base  *BaseShape
	r     *RAML
	wrong bool
	do    func(i int) // performed by each hook
}

func (c *c16Rec) call(i int, r *RAML, params []any) error {
	c.trace += strconv.Itoa(i)
	if r != c.r || len(params) != 1 {
		c.wrong = true
	} else if b, ok := params[0].(*BaseShape); !ok || b != c.base {
		c.wrong = true
	}
	if c.do != nil {
		c.do(i)
	}
	if c.bad == i {
		return c.err
	}
	return nil
}

func (c *c16Rec) hooks() []HookFunc {
	return []HookFunc{
		func(_ context.Context, r *RAML, p ...any) error { return c.call(0, r, p) },
		func(_ context.Context, r *RAML, p ...any) error { return c.call(1, r, p) },
		func(_ context.Context, r *RAML, p ...any) error { return c.call(2, r, p) },
		nil,
	}
}

func c16New() (*RAML, *BaseShape, *c16Rec) {
	r, err := vLib("types:\n  T: string\n", OptWithUnwrap())
	vAssume(err == nil)
	b := vGet(r, "T")
	return r, b, &c16Rec{bad: -1, err: errors.New("hook"), base: b, r: r}
}

// c16List is the reference: the registered hooks in order.
func c16Apply(list []int, op, k int) []int {
	var n []int
	switch op {
	case 0: // append
		n = append(n, list...)
		return append(n, k)
	case 1: // prepend
		n = append(n, k)
		return append(n, list...)
	case 2: // remove one
		done := false
		for _, x := range list {
			if x == k && !done {
				done = true
				continue
			}
			n = append(n, x)
		}
		return n
	case 3:
		return nil
	}
	return list
}

func c16Do(r *RAML, b *BaseShape, hooks []HookFunc, op, k int, viaShape bool) {
	key := HookBeforeUnwrapShape
	if op == 4 {
		// other steps are of no concern
		r.AppendHook(HookBeforeValidateShapes, hooks[k])
		r.PrependHook(HookKey("other"), hooks[k])
		r.ClearHooks(HookKey("another"))
		r.RemoveHook(HookBeforeFindAndMarkRecursion, hooks[k])
		return
	}
	if viaShape {
		switch op {
		case 0:
			b.AppendRAMLHook(key, hooks[k])
		case 1:
			b.PrepenRAMLHook(key, hooks[k])
		case 2:
			b.RemoveRAMLHook(key, hooks[k])
		case 3:
			b.ClearRAMLHooks(key)
		}
		return
	}
	switch op {
	case 0:
		r.AppendHook(key, hooks[k])
	case 1:
		r.PrependHook(key, hooks[k])
	case 2:
		r.RemoveHook(key, hooks[k])
	case 3:
		r.ClearHooks(key)
	}
}

// c16Trace is what a call of the hooks of the list leaves, and whether it fails.
func c16Trace(list []int, bad int) (string, bool) {
	s := ""
	for _, k := range list {
		if k == 3 {
			continue
		}
		s += strconv.Itoa(k)
		if k == bad {
			return s, true
		}
	}
	return s, false
}

func c16Check(r *RAML, b *BaseShape, c *c16Rec, list []int, label string) {
	c.trace = ""
	us, err := r.UnwrapShape(b)
	want, fails := c16Trace(list, c.bad)
	vObs("trace", want)
	vAssert(c.trace == want, label+": the hooks run in order until one fails")
	vAssert((err != nil) == fails && (!fails || err == c.err), label+": the call fails with the error of the hook")
	vAssert(fails || us == b, label+": the step is done after its hooks")
	vAssert(!c.wrong, label+": hooks get the parser and the shape")
}

// VH_C16_sequence: after any sequence of operations, the registered hooks run in order until one fails.
func VH_C16_sequence() {
	r, b, c := c16New()
	hooks := c.hooks()
	n := 4
	if vThorough {
		n = 6
	}
	var list []int
	for i := 0; i < n; i++ {
		op := ndChoice(5, "op")
		k := 0
		if op <= 2 {
			k = ndChoice(3, "hook")
			if op < 2 && i == 1 {
				if ndBool("choice") {
					k = 3
				}
			}
		}
		c16Do(r, b, hooks, op, k, i%2 == 1)
		list = c16Apply(list, op, k)
	}
	if len(list) > 0 {
		c.bad = ndChoice(4, "failing hook") - 1
	}
	c16Check(r, b, c, list, "sequence")
	c16Check(r, b, c, list, "again")
	vReach("sequence")
}

// VH_C16_during: hooks may change the registration while they run; that has an effect on later calls only.
func VH_C16_during() {
	r, b, c := c16New()
	hooks := c.hooks()
	list := []int{0, 1, 2}
	if ndBool("choice") {
		list = []int{0, 3, 1, 2, 0}
	}
	for _, k := range list {
		r.AppendHook(HookBeforeUnwrapShape, hooks[k])
	}
	who := ndChoice(3, "hook that changes the registration")
	op, k := ndChoice(4, "op"), ndChoice(3, "hook")
	op2, k2 := ndChoice(4, "second op"), ndChoice(3, "second hook")
	viaShape := ndBool("choice")
	after := list
	c.do = func(i int) {
		if i == who {
			c16Do(r, b, hooks, op, k, viaShape)
			after = c16Apply(after, op, k)
			c16Do(r, b, hooks, op2, k2, !viaShape)
			after = c16Apply(after, op2, k2)
		}
	}
	c.bad = ndChoice(4, "failing hook") - 1
	c16Check(r, b, c, list, "during")
	c.do = nil
	c16Check(r, b, c, after, "afterwards")
	vReach("during")
}

// VH_C16_separate: hooks of a parser made within a hook (from its context) and of the parser that runs it do not mix.
func VH_C16_separate() {
	r, b, c := c16New()
	hooks := c.hooks()
	n := ndChoice(4, "hooks before")
	var list []int
	for i := 0; i < n; i++ {
		r.AppendHook(HookBeforeUnwrapShape, hooks[i%3])
		list = append(list, i%3)
	}
	var inner *RAML
	take := func(ctx context.Context, _ *RAML, _ ...any) error {
		if inner == nil {
			inner = New(ctx)
		}
		return nil
	}
	r.PrependHook(HookBeforeFindAndMarkRecursion, take)
	_, err := r.FindAndMarkRecursion(b)
	vAssert(err == nil && inner != nil, "the hook runs")
	list2 := list
	for i := 0; i < 3; i++ {
		op, k := ndChoice(4, "op"), ndChoice(3, "hook")
		if i%2 == 0 {
			c16Do(inner, nil, hooks, op, k, false)
			list2 = c16Apply(list2, op, k)
		} else {
			c16Do(r, b, hooks, op, k, false)
			list = c16Apply(list, op, k)
		}
	}
	c16Check(r, b, c, list, "outer")
	c.r = inner
	c16Check(inner, b, c, list2, "inner")
	vReach("separate")
}

var c16Keys = []HookKey{
	HookBeforeParseDataType, HookBeforeBaseShapeInherit, HookBeforeBaseShapeInheritUnionSource,
	HookBeforeBaseShapeInheritUnionTarget, HookBeforeRAMLMakeConcreteShapeYAML, HookBeforeRAMLMakeNewShapeYAML,
	HookBeforeFindAndMarkRecursion, HookBeforeUnwrapShape, HookBeforeValidateTypes, HookBeforeValidateLibrary,
	HookBeforeValidateDataType, HookBeforeValidateFragments, HookBeforeValidateDomainExtensions,
	HookBeforeValidateShapes, HookBeforeValidateObjectShape, HookBeforeValidateShapeCommons,
	HookBeforeValidateExamples, HookBeforeValidateShapeFacets,
}

const c16Doc = "uses:\n  l: l.raml\nannotationTypes:\n  N: string\ntypes:\n  A:\n    type: object\n    facets:\n      f?: integer\n    properties:\n      a: string\n      b: string | integer\n" +
	"  B:\n    type: A\n    f: 1\n    (N): x\n    properties:\n      b:\n        type: string\n      /^c/: l.T[]\n    example:\n      a: x\n      b: y\n" +
	"  H: B?\n  I: (A | B)[]\n  C:\n    type: [B, A]\n  D: !include d.raml\n  E: A | l.T\n  F: B\n  G:\n    properties:\n      next?: G\n"

func c16Parse(r *RAML) error {
	vFile("l.raml", "#%RAML 1.0 Library\ntypes:\n  T:\n    type: integer\n    default: 4\n")
	vFile("d.raml", "#%RAML 1.0 DataType\ntype: object\nproperties:\n  a: boolean\n")
	return r.ParseFromString("#%RAML 1.0 Library\n"+c16Doc, "lib.raml", vDir(), OptWithUnwrap(), OptWithValidate())
}

// VH_C16_abort: a step whose hook fails makes the parse fail, whichever call of the hook it is; a hook that does not
// fail changes nothing.
func VH_C16_abort() {
	key := c16Keys[ndChoice(len(c16Keys), "step")]
	// how often the step happens
	r0 := New(context.Background())
	n := 0
	r0.AppendHook(key, func(context.Context, *RAML, ...any) error { n++; return nil })
	err := c16Parse(r0)
	vAssert(err == nil, "hooks that do not fail change nothing")
	plain := New(context.Background())
	vAssert(c16Parse(plain) == nil, "the document is valid")
	for _, t := range []string{"A", "B", "C", "D", "E", "F", "G", "H", "I"} {
		vAssert(vShow(vGet(r0, t), true) == vShow(vGet(plain, t), true), "hooks that do not fail change nothing")
	}
	if key != HookBeforeBaseShapeInheritUnionTarget {
		vAssert(n > 0, "every step calls its hooks")
	}
	at := ndChoice(64, "failing call")
	vAssume(at < n)
	r := New(context.Background())
	i := 0
	r.AppendHook(key, func(context.Context, *RAML, ...any) error {
		i++
		if i == at+1 {
			return errors.New("stop")
		}
		return nil
	})
	vAssert(c16Parse(r) != nil, "a failing hook fails the parse")
	vReach("abort")
}

// VH_C16_seen: hooks see what the step works on.
func VH_C16_seen() {
	r := New(context.Background())
	seen := map[HookKey]map[any]bool{}
	for _, k := range []HookKey{HookBeforeUnwrapShape, HookBeforeFindAndMarkRecursion, HookBeforeValidateShapeCommons,
		HookBeforeValidateExamples, HookBeforeValidateShapeFacets, HookBeforeValidateObjectShape, HookBeforeParseDataType,
		HookBeforeValidateLibrary, HookBeforeValidateDataType} {
		k := k
		seen[k] = map[any]bool{}
		r.AppendHook(k, func(_ context.Context, x *RAML, p ...any) error {
			vAssert(x == r && len(p) > 0, "hooks get the parser and the item")
			seen[k][p[0]] = true
			return nil
		})
	}
	vAssert(c16Parse(r) == nil, "the document is valid")
	lib := r.EntryPoint().(*Library)
	dt := r.GetFragment(vDir() + "/d.raml").(*DataType)
	for _, n := range []string{"A", "B", "C", "D", "E", "F", "G", "H", "I"} {
		b := vGet(r, n)
		vAssert(seen[HookBeforeUnwrapShape][b], "every type is seen when it is unwrapped")
		vAssert(seen[HookBeforeFindAndMarkRecursion][b], "every type is seen when recursion is marked")
		for _, s := range vReachable(b, false) {
			if s.Type == TypeRecursive {
				continue
			}
			vAssert(seen[HookBeforeValidateShapeCommons][s], "every shape is seen when it is validated")
			vAssert(seen[HookBeforeValidateExamples][s], "every shape is seen when its examples are validated")
			vAssert(seen[HookBeforeValidateShapeFacets][s], "every shape is seen when its facets are validated")
			if o, ok := s.Shape.(*ObjectShape); ok {
				vAssert(seen[HookBeforeValidateObjectShape][o], "every object is seen when it is validated")
			}
		}
	}
	vAssert(seen[HookBeforeParseDataType][vDir()+"/d.raml"], "the path of a data type is seen")
	vAssert(seen[HookBeforeValidateLibrary][lib], "the library is seen")
	vAssert(seen[HookBeforeValidateDataType][dt], "the data type is seen")
	vReach("seen")
}
