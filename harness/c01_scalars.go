package raml

//use: common.go
//bound: scalar types integer, number, string, boolean, nil, any, file and the four date/time types, parsed from a document and unwrapped; every subset of the enforced facets; facet values and instance values symbolic over the full 64-bit integer / IEEE double range, strings of up to 3 arbitrary bytes or opaque strings of up to 20 bytes, enums of up to 2 (thorough 3) entries
//assume: multipleOf on integer/number and format on integer/number are documented as not yet enforced at validation and are outside the property

import (
	"math"
	"strings"
	"unicode/utf8"
)

var _ = vReg("VH_C01_integer_int", VH_C01_integer_int)
var _ = vReg("VH_C01_integer_uint", VH_C01_integer_uint)
var _ = vReg("VH_C01_integer_float", VH_C01_integer_float)
var _ = vReg("VH_C01_integer_enum", VH_C01_integer_enum)
var _ = vReg("VH_C01_number_float", VH_C01_number_float)
var _ = vReg("VH_C01_number_int", VH_C01_number_int)
var _ = vReg("VH_C01_number_enum", VH_C01_number_enum)
var _ = vReg("VH_C01_string_len", VH_C01_string_len)
var _ = vReg("VH_C01_string_pattern", VH_C01_string_pattern)
var _ = vReg("VH_C01_string_enum", VH_C01_string_enum)
var _ = vReg("VH_C01_file", VH_C01_file)
var _ = vReg("VH_C01_boolean", VH_C01_boolean)
var _ = vReg("VH_C01_kinds", VH_C01_kinds)

// c01range declares an integer or number type with a symbolic subset of minimum and maximum.
func c01IntRange() (b *BaseShape, hasLo, hasHi bool, lo, hi int64) {
	doc := "types:\n  T:\n    type: integer\n    description: d\n"
	hasLo, hasHi = ndBool("hasMin"), ndBool("hasMax")
	if hasLo {
		lo = ndInt("min")
		doc += "    minimum: " + vPlace(lo) + "\n"
	}
	if hasHi {
		hi = ndInt("max")
		doc += "    maximum: " + vPlace(hi) + "\n"
	}
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "integer type parses")
	return
}

func VH_C01_integer_int() {
	b, hasLo, hasHi, lo, hi := c01IntRange()
	v := ndInt("v")
	var got bool
	if ndBool("as int64") {
		got = vOK(b, v)
	} else {
		got = vOK(b, int(v))
	}
	vAssert(got == vAnd(vOr(!hasLo, v >= lo), vOr(!hasHi, v <= hi)), "integer accepts exactly the declared range")
	vReach("end")
}

func VH_C01_integer_uint() {
	b, hasLo, hasHi, lo, hi := c01IntRange()
	v := ndUint("v")
	var got bool
	if ndBool("as uint64") {
		got = vOK(b, v)
	} else {
		got = vOK(b, uint(v))
	}
	geLo := vOr(!hasLo, lo < 0, v >= uint64(lo))
	leHi := vOr(!hasHi, vAnd(hi >= 0, v <= uint64(hi)))
	vAssert(got == vAnd(geLo, leHi), "integer accepts exactly the declared range (unsigned)")
}

func VH_C01_integer_float() {
	b, hasLo, hasHi, lo, hi := c01IntRange()
	v := ndFloat("v")
	// |v| <= 2^80 keeps the exact integer inside the 128-bit model
	vAssume(vOr(v != v, v > 1e300, v < -1e300, vAnd(v < 1208925819614629174706176.0, v > -1208925819614629174706176.0)))
	got := vOK(b, v)
	want := false
	if v == math.Trunc(v) && !math.IsInf(v, 0) {
		switch {
		case v >= 9223372036854775808.0:
			want = !hasHi
		case v < -9223372036854775808.0:
			want = !hasLo
		default:
			i := int64(v)
			want = vAnd(vOr(!hasLo, i >= lo), vOr(!hasHi, i <= hi))
		}
	}
	vAssert(got == want, "integer accepts exactly the integral floats of the declared range")
}

func VH_C01_integer_enum() {
	n := 1 + ndChoice(c01EnumMax(), "n")
	es := make([]int64, n)
	doc := "types:\n  T:\n    type: integer\n    enum: ["
	for i := range es {
		es[i] = ndInt("e")
		if i > 0 {
			doc += ", "
		}
		doc += vPlace(es[i])
	}
	doc += "]\n"
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "integer enum parses")
	vAssert(b.Check() == nil, "integer enum is well formed")
	v := ndInt("v")
	want := false
	for _, e := range es {
		want = vOr(want, e == v)
	}
	switch ndChoice(4, "kind") {
	case 0:
		vAssert(vOK(b, int(v)) == want, "integer enum exact (int)")
	case 1:
		vAssert(vOK(b, v) == want, "integer enum exact (int64)")
	case 2:
		vAssume(v >= 0)
		vAssert(vOK(b, uint(v)) == want, "integer enum exact (uint)")
	case 3:
		f := c01Half("f")
		want = false
		for _, e := range es {
			want = vOr(want, e == int64(f))
		}
		vAssert(vOK(b, f) == vAnd(want, f == math.Trunc(f)), "integer enum exact (float64)")
	}
}

func c01EnumMax() int {
	if vThorough {
		return 3
	}
	return 2
}

func c01NumRange() (b *BaseShape, hasLo, hasHi bool, lo, hi float64) {
	doc := "types:\n  T:\n    type: number\n    description: d\n"
	hasLo, hasHi = ndBool("hasMin"), ndBool("hasMax")
	if hasLo {
		lo = ndFloat("min")
		vAssume(lo == lo)
		doc += "    minimum: " + vPlace(lo) + "\n"
	}
	if hasHi {
		hi = ndFloat("max")
		vAssume(hi == hi)
		doc += "    maximum: " + vPlace(hi) + "\n"
	}
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "number type parses")
	return
}

func VH_C01_number_float() {
	b, hasLo, hasHi, lo, hi := c01NumRange()
	v := ndFloat("v")
	vAssume(v == v) // NaN cannot come from JSON
	vAssert(vOK(b, v) == vAnd(vOr(!hasLo, v >= lo), vOr(!hasHi, v <= hi)), "number accepts exactly the declared range")
}

func VH_C01_number_int() {
	b, hasLo, hasHi, lo, hi := c01NumRange()
	var got bool
	var v float64
	switch ndChoice(4, "kind") {
	case 0:
		i := ndInt("v")
		v, got = float64(i), vOK(b, int(i))
	case 1:
		i := ndInt("v")
		v, got = float64(i), vOK(b, i)
	case 2:
		i := ndUint("v")
		v, got = float64(i), vOK(b, uint(i))
	case 3:
		i := ndUint("v")
		v, got = float64(i), vOK(b, i)
	}
	vAssert(got == vAnd(vOr(!hasLo, v >= lo), vOr(!hasHi, v <= hi)), "number accepts exactly the declared range (ints)")
}

// c01Half is a float of the form k/2 or k/1 with k an arbitrary 32-bit integer.
func c01Half(n string) float64 {
	k := int32(ndInt(n))
	if ndBool(n + " is whole") {
		return float64(k)
	}
	return float64(k) / 2
}

func VH_C01_number_enum() {
	n := 1 + ndChoice(c01EnumMax(), "n")
	es := make([]float64, n)
	doc := "types:\n  T:\n    type: number\n    enum: ["
	for i := range es {
		if i > 0 {
			doc += ", "
		}
		if ndBool("int entry") {
			k := int32(ndInt("e"))
			es[i] = float64(k)
			doc += vPlace(int64(k))
		} else {
			es[i] = c01Half("e")
			doc += vPlace(es[i])
		}
	}
	doc += "]\n"
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "number enum parses")
	vAssert(b.Check() == nil, "number enum is well formed")
	var v any
	var f float64
	kind := ndChoice(5, "kind")
	if kind == 0 {
		f = c01Half("v")
		v = f
	} else {
		k := int32(ndInt("v"))
		f = float64(k)
		switch kind {
		case 1:
			v = int(k)
		case 2:
			v = int64(k)
		case 3:
			vAssume(k >= 0)
			v = uint(k)
		case 4:
			vAssume(k >= 0)
			v = uint64(k)
		}
	}
	want := false
	for _, e := range es {
		want = vOr(want, e == f)
	}
	vAssert(vOK(b, v) == want, "number enum compares by value")
}

// c01Len declares a symbolic subset of minLength and maxLength.
func c01Len(typ string) (b *BaseShape, hasLo, hasHi bool, lo, hi uint64) {
	doc := "types:\n  T:\n    type: " + typ + "\n    description: d\n"
	hasLo, hasHi = ndBool("hasMin"), ndBool("hasMax")
	if hasLo {
		lo = ndUint("min")
		doc += "    minLength: " + vPlace(lo) + "\n"
	}
	if hasHi {
		hi = ndUint("max")
		doc += "    maxLength: " + vPlace(hi) + "\n"
	}
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, typ+" type parses")
	return
}

// bound: every byte string of up to 2 bytes (3 in thorough), valid UTF-8 or not, against maxLength 0..2
func VH_C01_string_bytes() {
	max := 2
	if vThorough {
		max = 3
	}
	hi := ndChoice(3, "maxLength")
	b, err := vUnwrapped("types:\n  T:\n    type: string\n    maxLength: "+string(rune('0'+hi))+"\n", "T")
	vAssert(err == nil, "string type parses")
	v := ndStr(max)
	n := 0
	for range v {
		n++
	}
	vAssert(vOK(b, v) == (n <= hi), "string length counts characters")
}

var _ = vReg("VH_C01_string_bytes", VH_C01_string_bytes)

func VH_C01_string_len() {
	b, hasLo, hasHi, lo, hi := c01Len("string")
	v := ndAtom(20)
	n := uint64(utf8.RuneCountInString(v))
	vAssert(vOK(b, v) == vAnd(vOr(!hasLo, n >= lo), vOr(!hasHi, n <= hi)), "string accepts exactly the declared lengths")
}

func VH_C01_file() {
	b, hasLo, hasHi, lo, hi := c01Len("file")
	v := ndAtom(20)
	n := uint64(len(v))
	vAssume(utf8.RuneCountInString(v) == len(v)) // base64 text
	vAssert(vOK(b, v) == vAnd(vOr(!hasLo, n >= lo), vOr(!hasHi, n <= hi)), "file accepts exactly the declared lengths")
}

func c01Digits(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = vAnd(ok, s[i] >= '0', s[i] <= '9')
	}
	return ok
}

func VH_C01_string_pattern() {
	k := ndChoice(5, "pattern")
	pats := []string{"^[0-9]*$", "^a", "b$", "^(ab|cd)$", "x.y"}
	b, err := vUnwrapped("types:\n  T:\n    type: string\n    pattern: "+vPlace(pats[k])+"\n", "T")
	vAssert(err == nil, "pattern parses")
	max := 4
	if vThorough {
		max = 6
	}
	v := ndStr(max)
	for i := 0; i < len(v); i++ {
		vAssume(vAnd(v[i] < 0x80, v[i] != '\n'))
	}
	var want bool
	switch k {
	case 0:
		want = c01Digits(v)
	case 1:
		want = len(v) > 0 && v[0] == 'a'
	case 2:
		want = len(v) > 0 && v[len(v)-1] == 'b'
	case 3:
		want = len(v) == 2 && vOr(vAnd(v[0] == 'a', v[1] == 'b'), vAnd(v[0] == 'c', v[1] == 'd'))
	case 4:
		for i := 0; i+2 < len(v); i++ {
			want = vOr(want, vAnd(v[i] == 'x', v[i+2] == 'y'))
		}
	}
	vAssert(vOK(b, v) == want, "string accepts exactly what its pattern matches")
}

func VH_C01_string_enum() {
	n := 1 + ndChoice(c01EnumMax(), "n")
	es := make([]string, n)
	doc := "types:\n  T:\n    type: string\n    enum: ["
	for i := range es {
		es[i] = ndAtom(10)
		if i > 0 {
			doc += ", "
		}
		doc += vPlace(es[i])
		vAssume(!strings.HasPrefix(es[i], "{")) // a leading brace makes a JSON literal
	}
	doc += "]\n"
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "string enum parses")
	vAssert(b.Check() == nil, "string enum is well formed")
	v := ndAtom(10)
	want := false
	for _, e := range es {
		want = vOr(want, e == v)
	}
	vAssert(vOK(b, v) == want, "string enum exact")
}

func VH_C01_boolean() {
	doc := "types:\n  T:\n    type: boolean\n    description: d\n"
	n := ndChoice(3, "n")
	want := n == 0
	v := ndBool("v")
	for i := 0; i < n; i++ {
		e := ndBool("e")
		want = vOr(want, e == v)
		if i == 0 {
			doc += "    enum: ["
		} else {
			doc += ", "
		}
		doc += vPlace(e)
	}
	if n > 0 {
		doc += "]\n"
	}
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "boolean parses")
	vAssert(vOK(b, v) == want, "boolean enum exact")
}

// VH_C01_kinds: each scalar type accepts only its own kind of value.
func VH_C01_kinds() {
	types := []string{"integer", "number", "string", "boolean", "nil", "any", "file", "datetime", "datetime-only", "date-only", "time-only"}
	t := types[ndChoice(len(types), "type")]
	b, err := vUnwrapped("types:\n  T:\n    type: "+t+"\n    description: d\n", "T")
	vAssert(err == nil, "type parses")
	var v any
	accept := map[string]bool{"any": true}
	switch ndChoice(7, "kind") {
	case 0:
		v = nil
		accept["nil"] = true
	case 1:
		v = int(ndInt("v"))
		accept["integer"], accept["number"] = true, true
	case 2:
		v = 0.5
		accept["number"] = true
	case 3:
		v = "not a date"
		accept["string"], accept["file"] = true, true
	case 4:
		v = ndBool("v")
		accept["boolean"] = true
	case 5:
		v = []any{}
	case 6:
		v = map[string]any{}
	}
	vAssert(vOK(b, v) == accept[t], "scalar type accepts only its own kind")
}

// c01Two is a two-byte field: two symbolic digits, or one digit and one arbitrary byte.
func c01Two() (s string, n int, ok bool) {
	b := []byte(ndStrN(2))
	isd := func(c byte) bool { return vAnd(c >= '0', c <= '9') }
	ok = vAnd(isd(b[0]), isd(b[1]))
	if ndBool("digits") {
		vAssume(ok)
	} else {
		vAssume(vOr(isd(b[0]), isd(b[1])))
	}
	return string(b), int(b[0]-'0')*10 + int(b[1]-'0'), ok
}

// bound: date-only, time-only, datetime-only and datetime (rfc3339 default and explicit, rfc2616): one two-byte field at a time symbolic (both bytes), years 2023, 2024, 1900 and 2000
func VH_C01_dates() {
	kinds := []string{"date-only", "time-only", "datetime-only", "datetime", "datetime3339", "datetime2616"}
	ki := ndChoice(len(kinds), "type")
	doc := "types:\n  T:\n    type: " + kinds[ki] + "\n    description: d\n"
	if ki >= 4 {
		doc = "types:\n  T:\n    type: datetime\n    format: rfc" + kinds[ki][8:] + "\n"
	}
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "date type parses")
	f, n, ok := c01Two()
	yi := ndChoice(4, "year")
	year := []string{"2023", "2024", "1900", "2000"}[yi]
	leap := yi == 1 || yi == 3
	mo, d, h, mi, se := "02", "03", "04", "05", "06"
	lo, hi := 0, 59
	slots := []string{"month", "day", "hour", "minute", "second"}
	slot := ndChoice(len(slots), "slot")
	switch slots[slot] {
	case "month":
		mo, lo, hi = f, 1, 12
		vAssume(ki != 5)
	case "day":
		d, lo, hi = f, 1, 28
		if leap {
			hi = 29
		}
	case "hour":
		h, hi = f, 23
	case "minute":
		mi = f
	case "second":
		se = f
	}
	isDate := slot < 2
	date, tim := year+"-"+mo+"-"+d, h+":"+mi+":"+se
	var v string
	switch ki {
	case 0:
		vAssume(isDate)
		v = date
	case 1:
		vAssume(vAnd(!isDate, yi == 0))
		v = tim
	case 2:
		v = date + "T" + tim
	case 3, 4:
		v = date + "T" + tim + []string{"Z", "+05:30"}[ndChoice(2, "zone")]
	case 5:
		// Go's RFC 1123 layout tolerates padding that is not a digit; only digits are in scope
		vAssume(ok)
		v = "Sun, " + d + " Feb " + year + " " + tim + " GMT"
	}
	vAssert(vOK(b, v) == vAnd(ok, vAnd(n >= lo, n <= hi)), "date/time types accept exactly valid dates and times")
}

var _ = vReg("VH_C01_dates", VH_C01_dates)

// bound: every date-only, time-only, datetime-only and rfc3339 text that differs from a valid one in one byte (any byte value, any position), lacks one byte, or has one more byte (any value, any position)
func VH_C01_date_forms() {
	ki := ndChoice(5, "type")
	doc := "types:\n  T:\n    type: " + []string{"date-only", "time-only", "datetime-only", "datetime", "datetime\n    format: rfc3339"}[ki] + "\n    description: d\n"
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "date type parses")
	base := []string{"2024-02-18", "13:24:35", "2024-02-18T13:24:35", "2024-02-18T13:24:35Z", "2024-02-18T13:24:35+05:30"}[ki]
	vAssert(vOK(b, base), "a valid text is accepted")
	tim := strings.IndexByte(base, ':') - 2 // where the time starts
	if ki == 0 {
		tim = 99
	}
	end := len(base) // where date and time end
	if ki >= 3 {
		end = 19
	}
	isd := func(x byte) bool { return vAnd(x >= '0', x <= '9') }
	i := ndChoice(len(base)+1, "position")
	switch ndChoice(3, "change") {
	case 0: // one byte replaced
		vAssume(i < end)
		x := ndByte("x")
		want := isd(x)
		c := base[i]
		switch {
		case c < '0' || c > '9':
			want = x == c
		case ki != 1 && i == 5: // month tens: 02 -> x2
			want = vOr(x == '0', x == '1')
		case ki != 1 && i == 6: // 0x
			want = vAnd(want, x != '0')
		case ki != 1 && i == 8: // day tens: 18 -> x8
			want = vAnd(x >= '0', x <= '2')
		case i == tim: // hour tens: 13 -> x3
			want = vAnd(x >= '0', x <= '2')
		case i == tim+3 || i == tim+6: // minutes, seconds
			want = vAnd(x >= '0', x <= '5')
		}
		v := base[:i] + string([]byte{x}) + base[i+1:]
		vAssert(vOK(b, v) == want, "a date or time with one other byte is accepted exactly when it is valid")
	case 1: // one byte missing
		vAssume(i < len(base))
		vAssert(!vOK(b, base[:i]+base[i+1:]), "a date or time that lacks a byte is rejected")
	case 2: // one byte more
		x := ndByte("x")
		vAssert(!vOK(b, base[:i]+string([]byte{x})+base[i:]), "a date or time with an additional byte is rejected")
	}
}

var _ = vReg("VH_C01_date_forms", VH_C01_date_forms)

// bound: fractional seconds of one symbolic byte after a symbolic separator
func VH_C01_date_fraction() {
	ki := ndChoice(4, "type")
	doc := "types:\n  T:\n    type: " + []string{"time-only", "datetime-only", "datetime", "datetime\n    format: rfc3339"}[ki] + "\n    description: d\n"
	b, err := vUnwrapped(doc, "T")
	vAssert(err == nil, "date type parses")
	base := []string{"13:24:35", "2024-02-18T13:24:35", "2024-02-18T13:24:35", "2024-02-18T13:24:35"}[ki]
	zone := []string{"", "", "Z", "-01:00"}[ki]
	sep, x := ndByte("separator"), ndByte("x")
	v := base + string([]byte{sep, x}) + zone
	vAssert(vOK(b, v) == vAnd(sep == '.', x >= '0', x <= '9'), "a fraction of a second is a point and digits")
}

var _ = vReg("VH_C01_date_fraction", VH_C01_date_fraction)
